"""C15: an optimizer object that remembers results refuses another contraction."""
import ast
import itertools

from sa.engine import is_call, mcall
from sa.kit import Undecided, show, strip, truth_of
from sa.src import AnalysisBroken
from sa.terms import NONE, contains, is_const, mk, subterms
from .c26 import OPQ

DESC = ("Typestate analysis of optimizer objects: for every class of path optimizers the state kept between calls is found as the effects of a call on the object; a class with such state must, before its first effect, "
        "compare all three arguments that specify the contraction with a private copy of those of the first call (evaluated for first call, same and each kind of different call), and its state must be created per instance.")
KEY = ("inputs", "output", "size_dict")


def optimizers(ctx):
    base = "paths.PathOptimizer"
    if base not in ctx.p.classes:
        raise AnalysisBroken(base + " is missing")
    out = []
    for c in sorted({base} | {getattr(k, "fq", k) for k in ctx.p.subclasses(base)}):
        if c + ".__call__" in ctx.p.fns:
            out.append(c)
    return out


def selfroot(t):
    while t.op in ("attr", "idx", "esc", "frozen"):
        t = t.a[0]
    return t


def attr_of(t, s):
    """name of the attribute of s that t is (part of)"""
    name = None
    while t.op in ("attr", "idx", "esc", "frozen"):
        if t.op == "attr" and t.a[0] is s:
            return t.a[1]
        t = t.a[0]
    return name


def r_class(ctx):
    R = "state of the optimizers"
    n = 0
    for c in optimizers(ctx):
        fq = c + ".__call__"
        f = ctx.p.fn(fq)
        r = ctx.run(fq, public=True, opaque=OPQ | {"path_random.RandomOptimizer.setup"})
        s = next(iter(r.params.values()))
        eff = []
        for e in r.events:
            if e.kind == "setattr" and e.obj is s:
                eff.append((e, e.name))
            elif e.kind == "mutate" and attr_of(e.obj, s) is not None:
                eff.append((e, attr_of(e.obj, s)))
        guards = guard(r, s)
        memo = {g["attr"] for g in guards}
        state = [(e, a) for e, a in eff if a not in memo and a not in ("_futures",)]
        if not state:
            if any(e.kind == "return" for e in r.events) or r.ret is not NONE:
                ctx.put(True, R, f"{c} keeps nothing between calls", f.loc, "")
            continue
        n += 1
        first = min(state, key=lambda x: x[0].n)[0]
        if not guards:
            ctx.bad(R, f"{c} refuses another contraction", f.loc, f"it keeps {sorted({a for e, a in state})} between calls (first at {first.loc}) and never compares the contraction with that of the first call")
            continue
        for g in guards:
            one_guard(ctx, R, c, r, s, g, first)
        instance(ctx, R, c, {a for e, a in state})
    if not n:
        ctx.unk(R, "optimizers with state", "opt_einsum/paths.py", "none found")


def guard(r, s):
    """raises that depend on a comparison of remembered with given arguments"""
    out = []
    for e in r.events:
        if e.kind != "raise":
            continue
        for f in e.facts:
            for c in subterms(f):
                if c.op == "cmp" and c.a[0] == "eq":
                    rem = [x for x in c.a[1:] if remembered(x, s) is not None]
                    if rem and not any(g["ev"] is e for g in out):
                        out.append({"ev": e, "attr": remembered(rem[0], s)})
    return out


def remembered(t, s):
    """attribute of self the term reads (directly, by getattr, or as the value just stored)"""
    if t.op == "attr" and t.a[0] is s:
        return t.a[1]
    if t.op == "getattr" and t.a[0] is s:
        return t.a[1]
    if is_call(t, "builtins.getattr") and t.a[1] and t.a[1][0] is s and t.a[1][1].op == "const":
        return t.a[1][1].a[0]
    if t.op == "idx":
        return remembered(t.a[0], s)
    if mcall(t, "get", "setdefault") is not None and attr_of(t.a[0].a[0], s):
        return attr_of(t.a[0].a[0], s)
    return None


def faithful(t, p):
    """how much of parameter p the term determines: True everything relevant, False certainly not, None unknown"""
    if t is p:
        return True
    x = strip(t, "builtins.list", "builtins.tuple", "builtins.dict", "builtins.frozenset", "builtins.set", "copy.copy", "copy.deepcopy")
    if x is p:
        return True
    if is_call(x, "builtins.len", "builtins.id", "builtins.type", "builtins.bool", "builtins.hash"):
        return False
    if x.op == "comp" and len(x.a[2]) == 1 and strip(x.a[2][0]) is p and is_const(x.a[3], True):
        el = mk("elem", x.a[2][0], 0)
        y = strip(x.a[1], "builtins.frozenset", "builtins.tuple", "builtins.list", "builtins.set")
        if y is el:
            return False if x.a[0] == "set" else True
        if is_call(x.a[1], "builtins.len"):
            return False
        return None
    if is_call(x, "builtins.sorted", "builtins.map") and len(x.a[1]) >= 1:
        return None
    if mcall(x, "items", "copy") is not None and x.a[0].a[0] is p:
        return True
    if mcall(x, "keys") is not None and x.a[0].a[0] is p or mcall(x, "values") is not None and x.a[0].a[0] is p:
        return False
    if not contains(x, p):
        return False
    return None


def one_guard(ctx, R, c, r, s, g, first):
    e, attr = g["ev"], g["attr"]
    P = dict(zip([n.rstrip("_") for n in r.params], r.params.values()))
    if any(k not in P for k in KEY):
        ctx.unk(R, f"{c}: arguments", e.loc)
        return
    ctx.put(e.n < first.n, R, f"{c}: the comparison comes before any effect", e.loc, f"state is changed at {first.loc} first")
    cmps = [x for f in e.facts for x in subterms(f) if x.op == "cmp" and x.a[0] == "eq" and any(remembered(y, s) == attr for y in x.a[1:])]
    # what is compared
    what = {}
    for x in cmps:
        a, b = x.a[1:] if remembered(x.a[1], s) == attr else (x.a[2], x.a[1])
        if a.op == "attr" or remembered(a, s) and a.op != "idx":
            comps = list(b.a) if b.op in ("tup", "lst") else [b]
        else:
            comps = [b]
        what[x] = comps
    for k in KEY:
        p = P[k]
        best = False
        for x, comps in what.items():
            for y in comps:
                v = faithful(y, p)
                if v or (v is None and best is False):
                    best = v
                if v:
                    best = True
                    break
            if best is True:
                break
        ctx.put(best, R, f"{c}: {k} is compared", e.loc, "compared: " + "; ".join(show(y, 4) for ys in what.values() for y in ys))
    # when
    for firstcall, same in itertools.product((False, True), repeat=2):
        if firstcall and not same:
            continue

        def leaf(q, env):
            if q in cmps:
                return same
            if q.op == "hasattr" and q.a[0] is s:
                return not firstcall
            if is_call(q, "builtins.hasattr") and q.a[1][0] is s:
                return not firstcall
            if q.op == "cmp" and q.a[0] == "is" and remembered(q.a[1], s) == attr and q.a[2] is NONE:
                return firstcall
            if remembered(q, s) == attr:
                return not firstcall
            return None
        name = f"{c}: " + ("a first call is accepted" if firstcall else "the same contraction is accepted" if same else "another contraction is refused")
        want = not firstcall and not same
        free = []

        def leaf3(q, env):
            v = leaf(q, env)
            if v is not None:
                return v
            if q in env:
                return env[q]
            if free_condition(q, cmps):
                free.append(q)
                return False
            return None
        try:
            while True:
                k = len(free)
                res = []
                for vs in itertools.product((False, True), repeat=k):
                    env = dict(zip(free[:k], vs))
                    res.append((all([truth_of(f, env, leaf3) for f in e.facts]), env))
                if len(free) == k:
                    break
                if len(set(free)) > 6:
                    raise Undecided("too many conditions")
                free = list(dict.fromkeys(free))
        except Undecided as u:
            ctx.unk(R, name, e.loc, str(u))
            continue
        wrong = [env for got, env in res if got != want]
        if not wrong:
            ctx.put(True, R, name, e.loc, "")
        elif want:
            ctx.bad(R, name, e.loc, "accepted" + (" when " + ", ".join(f"{show(q, 4)} is {v}" for q, v in wrong[0].items()) if wrong[0] else ""))
        else:
            ctx.put(None if free else False, R, name, e.loc, "refused" + (" when " + ", ".join(f"{show(q, 4)} is {v}" for q, v in wrong[0].items()) if wrong[0] else ""))
    # what is remembered
    st = [x for x in r.events if x.kind == "setattr" and x.name == attr]
    if not st:
        ctx.unk(R, f"{c}: the first contraction is remembered", e.loc, "no assignment")
    for x in st:
        ctx.put(True if x.obj is s else False if x.obj.op == "class" else None, R, f"{c}: remembered per object", x.loc, show(x.obj, 3))
        v, raw = x.value, x.d.get("raw")
        comps = list(zip(v.a, raw.a)) if v.op == "tup" and raw is not None and raw.op == "tup" else []
        if not comps:
            ctx.unk(R, f"{c}: a copy is remembered", x.loc, show(v, 3))
        for a, b in comps:
            k = next((k for k in KEY if contains(a, P[k])), None)
            if k is None:
                continue
            alias = b is P[k]
            ctx.put(not alias, R, f"{c}: a copy of {k} is remembered", x.loc, "the caller's own object is remembered: changing it between calls goes unnoticed")

        def leaf2(q, env):
            if q.op == "hasattr" or is_call(q, "builtins.hasattr"):
                return False
            if q.op == "cmp" and q.a[0] == "is" and remembered(q.a[1], s) == attr:
                return True
            return None
        try:
            ctx.put(all(truth_of(f, None, leaf2) for f in x.facts), R, f"{c}: the first contraction is remembered", x.loc, "")
        except Undecided as u:
            ctx.unk(R, f"{c}: the first contraction is remembered", x.loc, str(u))


def free_condition(f, cmps):
    """a condition on other arguments or settings only"""
    if f.op in ("not", "and", "or", "phi") or any(contains(f, c) for c in cmps):
        return False
    at = [x for x in subterms(f) if x.op in ("param", "attr")]
    return bool(at) and not any(x.op in ("mu", "out") for x in subterms(f))


def instance(ctx, R, c, attrs):
    """state is created for every object"""
    ini = None
    cls = ctx.p.classes[c]
    m = ctx.p.find_method(cls, "__init__")
    if m is None:
        ctx.unk(R, f"{c}: state per object", cls.node.lineno)
        return
    r = ctx.run(m.fq)
    s = next(iter(r.params.values()))
    made = {}
    for e in r.events:
        if e.kind == "setattr" and e.obj is s:
            made.setdefault(e.name, []).append(e)
    for a in sorted(attrs):
        if a in made:
            e = made[a][-1]
            raw = e.d.get("raw", e.value)
            fresh = raw.op == "new" or raw.op in ("const", "tup") or raw.op == "call"
            ctx.put(True if fresh else False if raw.op in ("gvar", "param", "default") else None, R, f"{c}: {a} is created per object", e.loc, show(e.value, 3))
        else:
            k = cls
            body = [x for k in [cls] + list(cls.bases) for x in k.node.body if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None
                    and any(isinstance(t, ast.Name) and t.id == a for t in (x.targets if isinstance(x, ast.Assign) else [x.target]))]
            shared = body and isinstance(body[0].value, (ast.Dict, ast.List, ast.Set, ast.Call, ast.ListComp, ast.DictComp))
            ctx.put(False if shared else None, R, f"{c}: {a} is created per object", f"{cls.mod.rel}:{cls.node.lineno}", "one object shared by all instances" if shared else "not set in __init__")


def check(ctx):
    ctx.rule("state of the optimizers", r_class)
