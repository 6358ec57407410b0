"""C02: a shared intermediate is only reused for the same operation on the same arrays with the same options."""
from sa.engine import is_call, mcall
from sa.kit import Undecided, show, strip, truth_of
from sa.src import AnalysisBroken
from .common import Fails, pointeval
from sa.terms import NONE, TRUE, cmp, const, contains, cval, kids, mk, subterms, truth

DESC = ("Key-completeness (information-flow) analysis of every store into a sharing cache: the stored value's inputs must be recoverable "
        "from the key through injective operations, object identities used as keys must be kept alive by the cache, and the "
        "entry returned on a hit must be looked up under the key it was stored with.")

LOSSY = ("builtins.set", "builtins.frozenset", "builtins.len", "builtins.hash", "builtins.sum", "builtins.max", "builtins.min", "builtins.type", "builtins.bool")
KEEP = ("builtins.tuple", "builtins.list", "builtins.str", "builtins.repr", "builtins.iter")


def is_cache(t):
    """the innermost sharing cache of the calling thread"""
    return t.op == "idx" and contains(t, lambda x: x.op == "gvar" and x.a[0] == "sharing")


def identity_class(ctx, fq):
    """a class of this package whose instances compare by the identity of the object they hold (and keep it alive)"""
    c = ctx.p.classes.get(fq)
    if c is None:
        return None
    if any(fq + "." + m not in ctx.p.fns for m in ("__init__", "__eq__", "__hash__")):
        return None
    init, eq = ctx.run(fq + ".__init__"), ctx.run(fq + ".__eq__")
    names = [e.name for e in init.evs("setattr")]
    t = eq.eng.freeze(eq.ret, eq.state)
    ps = list(eq.params.values())
    for n in names:
        if contains(t, cmp("is", mk("attr", ps[0], n), mk("attr", ps[1], n))):
            return n
    return None


class Key:
    """What can be recovered from a key."""

    def __init__(self, ctx, k):
        self.ctx = ctx
        self.plain, self.objs, self.kept, self.lossy, self.unknown = {}, {}, set(), {}, set()
        self.comps = []
        self.see(k, ())
        # permuted components: two projections of the same sorted pairing are visible together
        by = {}
        for it, proj, el, ctxt in self.comps:
            by.setdefault(it, []).append((proj, el, ctxt))
        for it, ps in by.items():
            src = it
            perm = False
            while is_call(src, "builtins.sorted", "builtins.list", "builtins.tuple", "builtins.reversed"):
                perm = perm or is_call(src, "builtins.sorted")
                src = src.a[1][0]
            if src.op == "comp" and src.a[0] in ("list", "tuple", "gen") and src.a[1].op == "tup" and src.a[3] is TRUE and not any(x.op == "star" for x in src.a[1].a):
                parts = tuple(mk("comp", src.a[0], x, *src.a[2:]) for x in src.a[1].a)
            elif is_call(src, "builtins.zip"):
                parts = src.a[1]
            elif any(p is not None for p, _, _ in ps):
                self.unknown.add(src)
                continue
            else:
                parts = (src,)
            got = {p for p, _, _ in ps}
            for p, el, ctxt in ps:
                if p is None:
                    part, why = src, None
                    if len(parts) > 1 or not perm:
                        got_all = True
                    else:
                        self.mark_lossy(src, "sorted on its own")
                        continue
                    for q in parts:
                        self.see(q, ctxt)
                    continue
                if p >= len(parts):
                    self.unknown.add(src)
                    continue
                if perm and got != set(range(len(parts))):
                    self.mark_lossy(parts[p], "reordered without its counterpart")
                    continue
                self.see(parts[p], ctxt)

    def mark_lossy(self, t, how):
        for s in subterms(t):
            self.lossy.setdefault(s, how)

    def see(self, t, ctxt):
        self.plain.setdefault(t, set()).add(ctxt)
        if t.op in ("tup", "lst", "add", "star"):
            for x in t.a:
                self.see(x, ctxt)
            return
        if t.op in ("const", "param"):
            return
        if t.op == "join":
            for x in t.a[1:]:
                self.see(x, ctxt)
            return
        if is_call(t, "builtins.id"):
            x = t.a[1][0]
            self.objs.setdefault(x, set()).add(ctxt)
            return
        if is_call(t, "parser.alpha_canonicalize"):
            self.see(t.a[1][0], ctxt + (t,))
            return
        if is_call(t, *KEEP) and len(t.a[1]) == 1:
            self.see(t.a[1][0], ctxt)
            return
        if is_call(t, "builtins.sorted", "builtins.set", "builtins.frozenset") and t.a[1] and is_call(strip(t.a[1][0]), "builtins.zip"):
            self.unknown.add(t)     # a collection of pairs may be all that matters
            return
        if is_call(t, "builtins.sorted"):
            self.mark_lossy(t, "sorted on its own")
            return
        if is_call(t, *LOSSY):
            self.mark_lossy(t, "reduced by " + t.a[0].a[0].split(".")[-1])
            return
        if t.op == "call" and t.a[0].op in ("class", "cls") or (t.op == "call" and t.a[0].op == "func" and t.a[0].a[0] in self.ctx.p.classes):
            n = identity_class(self.ctx, t.a[0].a[0])
            if n is not None and t.a[1]:
                self.objs.setdefault(t.a[1][0], set()).add(ctxt)
                self.kept.add(t.a[1][0])
                return
        if t.op == "attr" and t.a[1] in ("shape", "dtype", "ndim", "size"):
            self.mark_lossy(t, "reduced to its " + t.a[1])
            return
        if t.op == "attr" and t.a[1] == "__name__":
            self.objs.setdefault(t.a[0], set()).add(ctxt)
            return
        if mcall(t, "split") is not None:
            self.see(mcall(t, "split"), ctxt)
            return
        if t.op == "comp" and len(t.a[2]) == 1 and t.a[3] is TRUE:
            el, it = t.a[1], t.a[2][0]
            if t.a[0] in ("set",):
                self.mark_lossy(t, "put into a set")
                return
            e = mk("elem", it, 0)
            if el is e:
                self.comps.append((it, None, el, ctxt))
                return
            if el.op == "idx" and el.a[0] is e and el.a[1].op == "const" and isinstance(cval(el.a[1]), int):
                self.comps.append((it, cval(el.a[1]), el, ctxt))
                return
            if is_call(el, "builtins.id") and el.a[1][0] is e:
                self.objs.setdefault(it, set()).add(ctxt)
                return
        if t.op == "comp" and len(t.a[2]) == 1:
            el, e = t.a[1], mk("elem", t.a[2][0], 0)
            while is_call(el, *KEEP) and len(el.a[1]) == 1:
                el = el.a[1][0]
            if el is e and t.a[3] is TRUE:
                self.see(t.a[2][0], ctxt)
                return
            if is_call(el, "builtins.sorted", *LOSSY) and el.a[1] and contains(el.a[1][0], e):
                self.mark_lossy(t.a[2][0], "reduced by " + el.a[0].a[0].split(".")[-1])
                return
        if t.op == "comp" and t.a[0] == "set":
            self.mark_lossy(t, "put into a set")
            return
        self.unknown.add(t)

    def status(self, t, V=None):
        """True: recoverable; ('lossy'|'missing', what); None: unknown"""
        if t in self.plain or t in self.objs or t.op in ("const", "func", "ext", "class"):
            return True
        if t.op == "star":
            return self.status(t.a[0])
        if t.op in ("param", "free", "elem") or (t.op == "idx" and is_call(t.a[0], "parser.parse_einsum_input")):
            if t in self.lossy:
                return ("lossy", f"{show(t, 3)} is {self.lossy[t]} in the key")
            if any(contains(u, t) for u in self.unknown):
                return None
            return ("missing", f"{show(t, 3)} is not part of the key")
        if t in self.lossy and t.op != "phi":
            return ("lossy", f"{show(t, 3)} is {self.lossy[t]} in the key")
        ks = kids(t)
        if not ks:
            return None
        worst = True
        for k in ks:
            s = self.status(k)
            if isinstance(s, tuple):
                # the part may be recoverable through a sibling view of the whole
                if any(contains(u, t) for u in self.unknown):
                    return None
                return s
            if s is None:
                worst = None
        return worst


def wrappers(ctx):
    outs = [fq for fq in ("sharing.transpose_cache_wrap", "sharing.tensordot_cache_wrap", "sharing.einsum_cache_wrap", "sharing.to_backend_cache_wrap")]
    for o in outs:
        if o not in ctx.p.fns:
            raise AnalysisBroken(f"public function {o} is missing")
    for fq, fn in sorted(ctx.p.fns.items()):
        if fn.outer is not None and fn.outer.fq in outs:
            yield fn.outer.fq, fq


def applications(ctx, name):
    import ast
    n = 0
    for m in ctx.p.mods.values():
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.FunctionDef,)):
                for d in x.decorator_list:
                    if name in ast.unparse(d):
                        n += 1
    return n


def r_wrapper(ctx, outer, fq, tags):
    short = outer.split(".")[-1]
    R = f"{short}: reuse"
    r = ctx.run(fq, opaque={"parser.parse_einsum_input", "parser.alpha_canonicalize"})
    fns = {t for t in (mk("param", outer, p) for p in ctx.p.fn(outer).all_params())}
    stores = [e for e in r.evs("mutate") if e.op == "setitem" and is_cache(e.obj)]
    memo = [e for e in stores if e.args[1].op == "call" and e.args[1].a[0] in fns]
    saves = [e for e in stores if e not in memo]
    calls = [e for e in r.evs("call") if e.callee in fns]
    if not memo:
        kp = [e for e in stores if contains(e.args[1], lambda x: x.op == "call" and x.a[0] in fns)]
        raise Undecided("no store of the operation's result was recognised" + (" (wrapped value)" if kp else ""))
    wparams = [p for p in r.params.values()]
    for e in memo:
        K, V = e.args
        key = Key(ctx, K)
        # every input of the stored value
        for what, t in [(f"argument {i + 1}", a) for i, a in enumerate(V.a[1])] + [(f"option {k}", v) for k, v in V.a[2]]:
            s = key.status(t)
            if isinstance(s, tuple):
                ctx.bad(R, f"{short}: {what} is fixed by the key", e.loc, s[1] + ": " + show(K, 7))
            else:
                ctx.put(s, R, f"{short}: {what} is fixed by the key", e.loc, show(t, 5))
        # inputs of the wrapper which the stored call drops
        for p in wparams:
            if contains(V, p):
                nm = p.a[1]
                if any(contains(x, p) and x.op == "dictdel" for x in subterms(V)) or nm != "kwargs":
                    continue
                if any(k.startswith("**") for k, _ in V.a[2]):
                    continue
            # an option not handed on: the code must have established that there is none
            def leaf(c, env):
                if c.op == "any":
                    b = c.a[0]
                    if b.op == "elem" and contains(b, p) and (mcall(b.a[0], "values") is not None or b.a[0].op == "values"):
                        return False    # an option may be false (a 0-d output array), or have no truth value (a larger one)
                    return True if contains(c, p) else None
                if c is p or c is truth(p) or (c.op == "truth" and contains(c, p)):
                    return True
                if c.op == "dictdel" and contains(c, p):
                    return True
                if c.op == "cmp" and c.a[0] in ("is", "eq") and NONE in c.a[1:] and contains(c, p):
                    x = c.a[1] if c.a[2] is NONE else c.a[2]
                    if mcall(x, "get") is not None or x.op == "get":
                        return True
                if c.op == "cmp" and c.a[0] == "in" and c.a[1].op == "const" and contains(c.a[2], p):
                    return False
                return None
            rel = [f for f in e.facts if contains(f, p) and not contains(f, K)]
            try:
                excluded = any(not truth_of(f, {}, leaf) for f in rel)
            except Undecided:
                excluded = None
            if excluded is None:
                ctx.unk(R, f"{short}: further options ({p.a[1]})", e.loc)
            else:
                ctx.put(excluded, R, f"{short}: further options ({p.a[1]})", e.loc,
                        f"{p.a[1]} can carry options which the stored operation ignores")
        # function identity / tag
        n = applications(ctx, short)
        fid = key.status(V.a[0])
        lead = K.a[0] if K.op == "tup" and K.a else None
        if fid is True:
            ctx.ok(R, f"{short}: the operation is part of the key", e.loc)
        elif n > 1:
            ctx.put(False if isinstance(fid, tuple) else None, R, f"{short}: the operation is part of the key", e.loc,
                    f"{n} different functions are wrapped, and their results share keys: {show(K, 5)}")
        elif lead is not None and lead.op == "const":
            shape = tuple(x.op for x in K.a)
            clash = [o for o, l, s in tags if l is lead and len(s) == len(shape) and o != short]
            ctx.put(not clash, R, f"{short}: the operation is part of the key", e.loc, f"same tag as {clash}")
            tags.append((short, lead, shape))
        else:
            ctx.unk(R, f"{short}: the operation is part of the key", e.loc, show(K, 4))
        # canonical renaming covers inputs and output together
        ctxs = {}
        for t, cs in key.plain.items():
            for c in cs:
                if c or any(any(x) for x in key.plain.values()):
                    ctxs.setdefault(t, set()).add(c)
        canon = [c for t, cs in key.plain.items() for c in cs if c]
        if canon:
            parts = [x for x in subterms(V) if x.op == "idx" and is_call(x.a[0], "parser.parse_einsum_input") and x.a[1].op == "const" and cval(x.a[1]) in (0, 1)]
            cs = [key.plain.get(x) for x in parts]
            if all(c is not None for c in cs):
                common = set.intersection(*cs)
                ctx.put(bool(common), R, f"{short}: inputs and output are renamed together", e.loc,
                        "inputs and output are not canonicalised in one go, so different equations get equal keys")
        # identities are kept alive
        for x in sorted(key.objs, key=lambda z: z.n):
            if x in key.kept or x.op == "param" and x in fns or x in (V.a[0],):
                continue
            live = None
            for s in kept_by_update(r, e):
                if s is None or contains(s, lambda z: z is x or strip(z) is strip(x)):
                    live = "cond"
            for s in saves:
                v = s.args[1]
                src = v
                if v.op == "elem":
                    src = v.a[0]
                if v is x or src is x or (src.op in ("tup", "lst", "set") and x in src.a) or (strip(src) is strip(x)):
                    cond = [f for f in s.facts if f not in e.facts]
                    live = True if not cond else "cond"
                    if live is True:
                        break
            if live is True:
                ctx.ok(R, f"{short}: {show(x, 3)} stays alive while its identity is a key", e.loc)
            elif live == "cond" or any(contains(s.args[1], x) or contains(x, s.args[1]) for s in saves):
                ctx.unk(R, f"{short}: {show(x, 3)} stays alive while its identity is a key", e.loc, "conditionally saved")
            else:
                ctx.bad(R, f"{short}: {show(x, 3)} stays alive while its identity is a key", e.loc,
                        "nothing in the cache keeps the array alive, so another array can take over its identity")
        for t in key.plain:
            if t.op == "get" and not contains(V, t):
                ctx.bad(R, f"{short}: {show(t, 3)} reaches the operation", e.loc, "part of the key, but not handed to the operation")
        # the operation carried out is the one asked for
        told = Key(ctx, mk("tup", *V.a[1], *[v for _, v in V.a[2]]))
        want = [x for x in {y for y in subterms(V)} if x.op == "idx" and is_call(x.a[0], "parser.parse_einsum_input") and x.a[1].op == "const"]
        for p in want or [p for p in wparams if p.a[1] not in ("args", "kwargs")]:
            s = told.status(p)
            if s is None and short in POINTS and p.a[1] == "axes":
                continue    # decided by value below
            if isinstance(s, tuple):
                ctx.bad(R, f"{short}: {show(p, 3)} reaches the operation unchanged", e.loc, s[1].replace(" in the key", "").replace("is not part of the key", "is not handed on"))
            else:
                ctx.put(s, R, f"{short}: {show(p, 3)} reaches the operation unchanged", e.loc)
        # ... argument by argument
        for d in calls:
            if not same_form(d, V):
                continue
            for i, (a, b) in enumerate(zip(d.args, V.a[1])):
                if a.op == "param" and b.op == "param" and a in wparams and b in wparams:
                    ctx.put(a is b, R, f"{short}: argument {i + 1} is the same with and without sharing", e.loc, f"{show(b, 3)} instead of {show(a, 3)}")
            da = dict(d.kws)
            for k, b in V.a[2]:
                a = da.get(k)
                if a is not None and a.op == "param" and b.op == "param" and a in wparams and b in wparams:
                    ctx.put(a is b, R, f"{short}: option {k} is the same with and without sharing", e.loc, f"{show(b, 3)} instead of {show(a, 3)}")
            break
        axes_form(ctx, R, short, V, wparams, e)
        axes_key(ctx, R, short, K, wparams, e)
        # liveness entries do not collide with other results
        for s in saves:
            kk = s.args[0]
            st = Key(ctx, kk).status(s.args[1])
            if isinstance(st, tuple):
                ctx.bad(R, f"{short}: every saved array has an entry of its own", s.loc, "arrays overwrite each other's entry and can be released: " + show(kk, 4))
            else:
                ctx.put(st, R, f"{short}: every saved array has an entry of its own", s.loc)
            if kk.op == "tup" and K.op == "tup" and len(kk.a) == len(K.a) and kk.a and kk.a[0] is K.a[0]:
                ctx.bad(R, f"{short}: saved arrays have keys of their own", s.loc, "a saved array overwrites a result: " + show(kk, 4))
            else:
                ctx.ok(R, f"{short}: saved arrays have keys of their own", s.loc)
        # what a hit returns
        ret = r.eng.freeze(r.ret, r.state)
        hits = []

        def alts(t):
            if t.op == "phi":
                alts(t.a[1])
                alts(t.a[2])
            else:
                hits.append(t)

        alts(ret)
        for h in hits:
            if h.op == "idx" and contains(h.a[0], lambda x: x.op == "gvar" and x.a[0] == "sharing"):
                ctx.put(h.a[1] is K or (None if contains(h.a[1], lambda x: x.op in ("mu", "opaque")) else False), R, f"{short}: a hit returns the entry of this key", e.loc,
                        f"looked up under {show(h.a[1], 6)}, stored under {show(K, 6)}")
            elif h.op == "get" and is_cache(h.a[0]) or mcall(h, "get") is not None:
                ctx.unk(R, f"{short}: a hit returns the entry of this key", e.loc)
            elif h.op == "call" and h.a[0] in fns:
                pass
            elif h in (NONE,):
                ctx.bad(R, f"{short}: the result is returned", e.loc, "returns None on some path")
        # lookup condition
        for c in r.evs("call"):
            pass
    for e in calls:
        args = set().union(*[set(subterms(a)) for a in e.args], *[set(subterms(v)) for _, v in e.kws]) if (e.args or e.kws) else set()
        mem = any(e.facts[: len(m.facts)] == m.facts or set(m.facts) <= set(e.facts) for m in memo)
        if mem:
            continue
        drop = [p for p in wparams if p not in args and p.a[1] not in ("kwargs",)]
        ctx.put(not drop, R, f"{short}: the direct call passes everything on ({'sharing' if e.facts and e.facts[0].op != 'not' else 'not sharing'})", e.loc,
                "drops " + ", ".join(p.a[1] for p in drop))
        kws = [p for p in wparams if p.a[1] == "kwargs"]
        for p in kws:
            if p not in args:
                ctx.bad(R, f"{short}: the direct call passes the options on", e.loc, "the options are dropped")


def kept_by_update(r, e):
    """values put into the cache by other means than single stores (None: not known which)"""
    for u in r.evs("mutate"):
        if u.op in ("update", "setdefault", "__setitem__", "|=") and is_cache(u.obj):
            yield u.args[-1] if u.args else None
    for u in r.evs("augassign"):
        yield None


def same_form(d, V):
    return len(d.args) == len(V.a[1]) and not any(x.op == "star" for x in list(d.args) + list(V.a[1]))


# (dimensions of the operands, axes asked for, axes meant)
POINTS = {"tensordot_cache_wrap": [((3, 2), 1, ((2,), (0,))), ((3, 3), 2, ((1, 2), (0, 1))), ((2, 2), 0, ((), ())), ((4, 3), 3, ((1, 2, 3), (0, 1, 2))), ((3, 3), ((0, 2), (1, 0)), ((0, 2), (1, 0))), ((3, 2), ((), ()), ((), ())), ((2, 2), ((1,), (0,)), ((1,), (0,)))],
          "transpose_cache_wrap": [((3,), (1, 0, 2), (1, 0, 2)), ((2,), (1, 0), (1, 0)), ((3,), (2, 0, 1), (2, 0, 1))]}


# different requests for operands of the same dimensions
DIFFERENT = {"tensordot_cache_wrap": ((3, 3), [((0, 2), (1, 0)), ((0, 2), (0, 1)), ((0, 2), (1, 2)), ((1, 2), (1, 0)), ((0,), (1,)), ((0,), (2,)), ((1,), (1,)), ((1, 0), (1, 0)), ((), ())]),
             "transpose_cache_wrap": ((3,), [(1, 0, 2), (2, 0, 1), (0, 2, 1), (1, 2, 0), (2, 1, 0), (0, 1, 2)])}


def axes_key(ctx, R, short, K, wparams, e):
    """different axes have different keys"""
    ax = next((p for p in wparams if p.a[1] == "axes"), None)
    if ax is None or short not in DIFFERENT:
        return
    con = f"{short}: requests differing in axes differ in the key"
    parts = [c for c in K.a if contains(c, ax)] if K.op == "tup" else [K]
    ops = [p for p in wparams if p is not ax and p.a[1] != "backend"]
    nds, reqs = DIFFERENT[short]
    seen = {}
    try:
        for given in reqs:
            got = tuple(pointeval(c, *at_axes(ax, given, ops, nds)) for c in parts)
            if got in seen:
                ctx.bad(R, con, e.loc, f"axes {seen[got]} and {given} of operands with {nds} dimensions share the key {show(K, 5)}")
                return
            seen[got] = given
        ctx.ok(R, con, e.loc, f"{len(reqs)} requests")
    except (Fails, Undecided, TypeError) as x:
        ctx.unk(R, con, e.loc, str(x))


def at_axes(ax, given, ops, nds):
    def val(t):
        if t is ax:
            return given
        for p, n in zip(ops, nds):
            if t is mk("attr", p, "ndim") or t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "builtins.len" and t.a[1] and t.a[1][0] in (mk("attr", p, "shape"), p):
                return n
            if t is mk("attr", p, "shape"):
                return tuple(range(2, 2 + n))
        return None

    def leaf(c, env):
        if c.op == "isinstance" and c.a[0] is ax:
            k = str(c.a[1]).lower()
            if any(w in k for w in ("number", "int", "integral")) and not any(w in k for w in ("tuple", "list", "sequence", "iterable")):
                return isinstance(given, int)
            if any(w in k for w in ("tuple", "list", "sequence", "iterable")) and not any(w in k for w in ("number", "int")):
                return not isinstance(given, int)
        if is_call(c, "builtins.hasattr") and c.a[1][0] is ax:
            return not isinstance(given, int)
        return None
    return val, leaf


def axes_form(ctx, R, short, V, wparams, e):
    """axes handed to the operation mean the axes asked for"""
    ax = next((p for p in wparams if p.a[1] == "axes"), None)
    if ax is None or short not in POINTS:
        return
    arg = next((a for a in list(V.a[1]) + [v for _, v in V.a[2]] if contains(a, ax)), None)
    if arg is None:
        return
    ops = [p for p in wparams if p is not ax and p.a[1] != "backend"]
    for nds, given, meant in POINTS[short]:
        val, leaf = at_axes(ax, given, ops, nds)
        con = f"{short}: axes={given} for {' and '.join(str(n) for n in nds)} dimensions"
        try:
            got = pointeval(arg, val, leaf)
        except Fails as x:
            ctx.bad(R, con, e.loc, f"the request fails while sharing: {x}")
            continue
        except Undecided as x:
            ctx.unk(R, con, e.loc, str(x))
            continue
        ok = got == meant or got == given
        if not ok and short.startswith("tensordot") and isinstance(got, tuple) and len(got) == 2 and all(isinstance(x, tuple) for x in got):
            # the order of the pairs does not matter, negative axes count from the end
            ok = len(got[0]) == len(got[1]) and sorted(zip([x % nds[0] for x in got[0]], [x % nds[1] for x in got[1]])) == sorted(zip(*meant))
        ctx.put(ok, R, con, e.loc, f"{got} is handed on")


def check(ctx):
    tags = []
    ws = list(wrappers(ctx))
    if not ws:
        ctx.unk("wrappers", "analysis", "", "no nested wrapper functions")
    seen = set()
    for outer, fq in ws:
        ctx.rule(f"{outer.split('.')[-1]}: reuse", lambda c, o=outer, f=fq: r_wrapper(c, o, f, tags))
