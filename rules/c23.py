"""C23: work that can be shared or is constant is carried out once."""
import ast

from sa.engine import is_call
from sa.kit import Undecided, show, truth_of
from sa.src import AnalysisBroken
from sa.terms import NONE, contains, cval, mk, subterms
from .c02 import POINTS, is_cache, wrappers
from .c07 import reachable
from .common import Fails, atoms_of, pointeval

DESC = ("Path analysis of the memoising wrappers and of ContractExpression: under the facts of a hit no path reaches the wrapped operation and the stored entry is what "
        "is returned, under the facts of a miss the result is stored under the key that is looked up; the keys themselves are evaluated at points which denote the same operation "
        "and have to come out equal; every primitive operation reached from the contraction loop is a wrapped one.")

SH = "sharing."
CE = "contract.ContractExpression."


def on_stack(t):
    return contains(t, lambda x: x.op == "gvar" and x.a[0] == "sharing")


def scenario(sharing, hit, K=None):
    def leaf(c, env):
        if is_call(c, "sharing.currently_sharing"):
            return sharing
        if c.op == "cmp" and c.a[0] == "in" and on_stack(c.a[2]):
            if is_call(c.a[1], "threading.get_ident") and c.a[2].op == "gvar":
                return sharing
            if not (is_call(c.a[1], "threading.get_ident")) and (K is None or c.a[1] is K):
                return hit
        if c.op == "cmp" and c.a[0] == "is" and c.a[2] is NONE and c.a[1].op == "get" and is_cache(c.a[1].a[0]):
            return not hit
        if c.op == "any":
            return False
        if c.op == "truth" and contains(c, lambda x: x.op == "param" and x.a[1] == "kwargs"):
            return False
        if c.op == "cmp" and c.a[0] == "is" and c.a[2] is NONE and c.a[1].op in ("idx", "elem") and contains(c.a[1], lambda x: x.op == "param" and x.a[1] == "kwargs"):
            return True    # each of the further options
        return None
    return leaf


def always(store, works, leaf, inputs):
    """does the store follow the work whatever the inputs are?  (True, False, None; the condition)"""
    done = set().union(*[set(w.facts) for w in works]) if works else set()
    worst = (True, None)
    for f in store.facts:
        if f in done:
            continue
        try:
            if truth_of(f, None, leaf):
                continue
            return False, f
        except Undecided:
            pass
        ats = [x for x in atoms_of(f) if leaf(x, None) is None]
        src = [x.a[0] if x.op == "truth" else x for x in ats]
        own = all(not contains(x, lambda y: y.op in ("mu", "opaque", "exc")) and contains(x, lambda y: y in inputs) and not (contains(x, lambda y: y.op == "call" and y.a[0].op != "ext")) for x in src)
        if ats and own and reachable([f], leaf) and reachable([mk("not", f)], leaf):
            return False, f
        worst = (None, f)
    return worst


def r_currently(ctx):
    R = "currently_sharing"
    if SH + R not in ctx.p.fns:
        raise AnalysisBroken("public function sharing.currently_sharing is missing")
    r = ctx.run(SH + R)
    t = r.eng.freeze(r.ret, r.state)
    for inside in (True, False):
        def leaf(c, env):
            if c.op == "cmp" and c.a[0] == "in" and is_call(c.a[1], "threading.get_ident") and c.a[2].op == "gvar":
                return inside
            if c.op == "const":
                return bool(cval(c))
            return None
        got = truth_of(t, None, leaf)
        ctx.put(got == inside, R, f"a thread {'inside' if inside else 'outside'} a sharing block", ctx.p.fn(SH + R).loc, f"answers {got}")


def lookups(r):
    """keys under which the cache is asked"""
    out = []
    for e in r.events:
        for f in e.facts:
            for x in subterms(f):
                if x.op == "cmp" and x.a[0] == "in" and on_stack(x.a[2]) and not is_call(x.a[1], "threading.get_ident"):
                    if x.a[1] not in out:
                        out.append(x.a[1])
    return out


def opts_free(ctx, outer, fq):
    return ctx.run(fq, opaque={"parser.parse_einsum_input", "parser.alpha_canonicalize"})


def r_wrapper(ctx, outer, fq):
    short = outer.split(".")[-1]
    R = f"{short}: once"
    r = opts_free(ctx, outer, fq)
    fns = {mk("param", outer, p) for p in ctx.p.fn(outer).all_params()}
    calls = [e for e in r.evs("call") if e.callee in fns]
    stores = [e for e in r.evs("mutate") if e.op == "setitem" and is_cache(e.obj) and contains(e.args[1], lambda x: x.op == "call" and x.a[0] in fns)]
    loc = ctx.p.fn(fq).loc
    if not calls:
        raise Undecided("no call of the wrapped operation was recognised")
    # a hit: nothing is computed
    leaf = scenario(True, True)
    got = [(e, reachable(e.facts, leaf)) for e in calls]
    bad = [e for e, g in got if g is True]
    if bad:
        ctx.bad(R, f"{short}: a second request does no work", bad[0].loc, "the operation is carried out although its result is in the cache")
    else:
        ctx.put(None if any(g is None for _, g in got) else True, R, f"{short}: a second request does no work", loc)
    # a miss: carried out, and stored
    leaf = scenario(True, False)
    got = [(e, reachable(e.facts, leaf)) for e in calls]
    ctx.put(True if any(g is True for _, g in got) else False if all(g is False for _, g in got) else None, R, f"{short}: a first request is carried out", loc)
    live = [e for e in stores if reachable(e.facts, leaf) is not False]
    if not live:
        others = [e for e in r.evs("mutate") if on_stack(e.obj) and e not in stores and reachable(e.facts, leaf) is not False and e.op not in ("setitem", "pop", "append")]
        ctx.put(None if others else False, R, f"{short}: the result is kept", loc, "no path stores the result in the sharing cache")
    else:
        ks = lookups(r)
        oks = [(reachable(e.facts, leaf), always(e, [c for c in calls if reachable(c.facts, leaf)], leaf, set(r.params.values()))) for e in live]
        for e, (g, (a, f)) in zip(live, oks):
            if len(live) > 1 and a is False:
                a = None
            ctx.put(None if g is None or a is None else g and a, R, f"{short}: the result is kept", e.loc, "only if " + show(f, 5) if f is not None else "")
            if ks:
                ok = e.args[0] in ks
                ctx.put(ok if ok or not any(contains(k, lambda x: x.op in ("mu", "opaque")) for k in ks + [e.args[0]]) else None, R, f"{short}: the entry is found again", e.loc,
                        f"stored under {show(e.args[0], 5)}, looked up under {show(ks[0], 5)}")
    # no cache outside of sharing blocks
    leaf = scenario(False, False)
    touch = [e for e in r.evs("mutate") if is_cache(e.obj) and reachable(e.facts, leaf) is True]
    ctx.put(not touch, R, f"{short}: nothing is kept outside of sharing blocks", touch[0].loc if touch else loc, "the cache is used although there is none")
    keys(ctx, R, short, r, stores)


# requests meaning the same einsum: (inputs, output, operands)
SAME = [
    [("ab,bc", "ac", (11, 22)), ("bc,ab", "ac", (22, 11)), ("xy,yz", "xz", (11, 22)), ("ba,ac", "bc", (11, 22)), ("zq,bz", "bq", (22, 11))],
    [("a,a", "", (7, 9)), ("b,b", "", (7, 9)), ("c,c", "", (9, 7))],
    [("abc", "ca", (5,)), ("xyz", "zx", (5,)), ("bca", "ab", (5,))],
    [("ij,k,kl", "ijl", (3, 1, 2)), ("kl,k,ij", "ijl", (2, 1, 3)), ("k,kl,ij", "ijl", (1, 2, 3)), ("b,bc,de", "dec", (1, 2, 3))],
]


def canon(eq):
    """the renaming itself (alpha_canonicalize): letters in order of appearance"""
    names = {}
    return "".join(c if c in ",->" else names.setdefault(c, "abcdefghijkl"[len(names)]) for c in eq)


def keys(ctx, R, short, r, stores):
    if short.startswith("einsum"):
        if len(stores) != 1:
            ctx.unk(R, f"{short}: equal requests have equal keys", "")
            return
        e = stores[0]
        P = [x for x in subterms(e.args[0]) if is_call(x, "parser.parse_einsum_input")]
        if not P:
            ctx.unk(R, f"{short}: equal requests have equal keys", e.loc)
            return
        for group in SAME:
            got = []
            for inp, out, ops in group:
                def val(t):
                    if t in P:
                        return (inp, out, ops)
                    if t.op == "get":
                        return "numpy"
                    return None
                v = pointeval(e.args[0], val, scenario(True, False), r, {"builtins.id": lambda x: x, "parser.alpha_canonicalize": canon})
                got.append(v)
            for (inp, out, ops), v in zip(group[1:], got[1:]):
                i0, o0, p0 = group[0]
                ctx.put(v == got[0], R, f"{short}: {inp}->{out} of {ops} is {i0}->{o0} of {p0}", e.loc, f"different entries: {v} and {got[0]}")
    if short.startswith("tensordot"):
        r2 = r
        for e in stores:
            ax = next((p for p in r2.params.values() if p.a[1] == "axes"), None)
            ops = [p for p in r2.params.values() if p.a[1] not in ("axes", "backend")]
            if ax is None or len(ops) != 2:
                ctx.unk(R, f"{short}: equal requests have equal keys", e.loc)
                continue
            for nds, given, meant in POINTS[short]:
                if not isinstance(given, int):
                    given = tuple(tuple(x) for x in given)
                out = []
                for form in (given, meant, tuple(list(x) for x in meant)):
                    def val(t, form=form):
                        if t is ax:
                            return tuple(tuple(x) for x in form) if not isinstance(form, int) else form
                        for i, (p, n) in enumerate(zip(ops, nds)):
                            if t is p:
                                return f"<operand {i}>"
                            if t is mk("attr", p, "ndim") or is_call(t, "builtins.len") and t.a[1] and t.a[1][0] in (mk("attr", p, "shape"), p):
                                return n
                            if t is mk("attr", p, "shape"):
                                return tuple(range(2, 2 + n))
                        if t.op == "param" and t.a[1] == "backend":
                            return "numpy"
                        return None
                    out.append(pointeval(e.args[0], val, scenario(True, False), r2, {"builtins.id": lambda x: x}))
                ctx.put(len(set(out)) == 1, R, f"{short}: axes={given} for {nds[0]} and {nds[1]} dimensions is axes={meant}", e.loc, f"different entries: {out[0]} and {out[1]}")


def r_primitive(ctx):
    """every primitive operation which the contraction loop carries out is a wrapped one"""
    R = "wrapped operations"
    fq = "contract._core_contract"
    if fq not in ctx.p.fns:
        raise Undecided("no contraction loop")
    prims = {}
    for f, fn in ctx.p.fns.items():
        if f.startswith("contract.") and fn.outer is None and fn.cls is None:
            src = fn.node
            if any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Attribute) and x.func.attr == "get_func" or isinstance(x.func, ast.Name) and x.func.id == "get_func") for x in ast.walk(src)):
                prims[f] = fn
    r = ctx.run(fq, opaque=set(prims))
    tree = ctx.p.fn(fq).mod.tree
    n = 0
    for e in r.evs("call"):
        if e.callee.op == "func" and e.callee.a[0] in prims:
            fn = prims[e.callee.a[0]]
            name = fn.node.name
            deco = [ast.unparse(d) for d in fn.node.decorator_list]
            again = [x for x in ast.walk(tree) if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == name for y in x.targets)]
            n += 1
            if any("cache_wrap" in d for d in deco):
                kind = next((k for k in ("tensordot", "transpose", "einsum") if any(k + "_cache_wrap" in d for d in deco)), None)
                if kind is None:
                    ctx.unk(R, f"{name} is memoised while sharing", e.loc, str(deco))
                    continue
                gets = [ast.unparse(x.args[0]) for x in ast.walk(fn.node) if isinstance(x, ast.Call) and ast.unparse(x.func).endswith("get_func") and x.args]
                ctx.put(True if any(kind in g for g in gets) else None, R, f"{name} is memoised while sharing", e.loc)
            elif deco or again:
                ctx.unk(R, f"{name} is memoised while sharing", e.loc, str(deco))
            else:
                ctx.bad(R, f"{name} is memoised while sharing", e.loc, "a primitive operation of the contraction loop is carried out anew each time")
    if not n:
        raise Undecided("no primitive operation recognised")


def r_conversion(ctx):
    """conversions to device arrays or constants are memoised"""
    R = "conversions"
    n = 0
    for f, fn in sorted(ctx.p.fns.items()):
        if f.startswith("backends.") and fn.node.name.startswith("to_") and fn.cls is None:
            src = [ast.unparse(d) for d in fn.node.decorator_list]
            if any("cache_wrap" in d for d in src):
                ctx.ok(R, f"{f} is memoised while sharing", fn.loc)
                n += 1
    want = {"backends.torch": "torch", "backends.cupy": "cupy", "backends.jax": "jax", "backends.tensorflow": "tensorflow", "backends.theano": "theano"}
    for m, name in want.items():
        mod = next((x for x in ctx.p.mods.values() if x.name == m or x.name.endswith("." + m)), None)
        if mod is None:
            continue
        refs = any(isinstance(x, (ast.Name, ast.Attribute)) and (getattr(x, "id", None) or getattr(x, "attr", None)) == "to_backend_cache_wrap" for x in ast.walk(mod.tree))
        ctx.put(refs, R, f"{name}: conversions are memoised while sharing", m.replace(".", "/") + ".py", "no conversion of this backend is memoised: the same array is converted again for every contraction")


def r_factory(ctx):
    """the wrapper for conversions, in both of its forms"""
    R = "to_backend_cache_wrap: forms"
    fq = "sharing.to_backend_cache_wrap"
    fn = ctx.p.fn(fq)
    r = ctx.run(fq)
    ps = {p.a[1]: p for p in r.params.values()}
    if not {"to_backend", "constants"} <= set(ps):
        raise Undecided("parameters")
    tb, co = ps["to_backend"], ps["constants"]
    t = r.eng.freeze(r.ret, r.state)
    for given, cons in ((False, False), (False, True), (True, False), (True, True)):
        def leaf(c, env):
            if c.op == "cmp" and c.a[0] == "is" and tb in c.a[1:] and NONE in c.a[1:]:
                return not given
            if c is co or c.op == "truth" and c.a[0] is co:
                return cons
            if c is tb or c.op == "truth" and c.a[0] is tb:
                return given
            return None
        x = t
        while x.op == "phi":
            x = x.a[1] if truth_of(x.a[0], None, leaf) else x.a[2]
        con = f"{'a conversion' if given else 'no conversion yet'}, constants={cons}"
        if not given:
            ok = x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "functools.partial" or x.op == "clos" or x.op == "partial"
            if ok and x.op == "call":
                kw = dict(x.a[2])
                v = kw.get("constants")
                ctx.put(v is co or (v is not None and v.op == "const" and cval(v) == cons) if v is not None else (False if cons else None), R, con, fn.loc, "the option constants is lost")
            else:
                ctx.put(None if ok or x is not NONE else False, R, con, fn.loc, show(x, 3))
            continue
        if x is NONE or x is tb:
            ctx.bad(R, con, fn.loc, "the conversion is not wrapped" if x is tb else "returns nothing")
            continue
        while is_call(x) and x.op == "call" and x.a[1] and x.a[0].op == "call":
            x = x.a[1][0]           # functools.wraps(...)(f)
        if x.op != "clos":
            ctx.unk(R, con, fn.loc, show(x, 3))
            continue
        node = r.eng.closures[x].node
        names = [a.arg for a in node.args.args + node.args.kwonlyargs]
        ctx.put(("constant" in names) == cons or node.args.kwarg is not None or None, R, con, fn.loc, str(names)) if ("constant" in names) == cons else \
            ctx.bad(R, con, fn.loc, f"takes {names}")


def own_attrs(ctx):
    r = ctx.run(CE + "__init__")
    return {e.name for e in r.evs("setattr")}


def r_expression(ctx):
    R = "expressions"
    call = CE + "__call__"
    if call not in ctx.p.fns:
        raise AnalysisBroken("ContractExpression.__call__ is missing")
    EV, BU = CE + "evaluate_constants", "backends.dispatch.build_expression"
    for f in (EV, BU):
        if f not in ctx.p.fns:
            raise Undecided(f"{f} not found")
    dev = "backends.dispatch.evaluate_constants"
    r = ctx.run(call, opaque={EV, BU, dev, "contract._core_contract", "backends.dispatch.has_backend", "contract.parse_backend", "contract.infer_backend"})
    selfp = r.params["self"]

    def leaf_of(have):
        def leaf(c, env):
            if c.op == "cmp" and c.a[0] == "in" and c.a[2].op == "attr" and c.a[2].a[0] is selfp and contains(c.a[1], lambda x: is_call(x, "contract.parse_backend")):
                return have
            if c.op == "cmp" and c.a[0] == "is" and c.a[2] is NONE and c.a[1].op == "get" and c.a[1].a[0].op == "attr" and c.a[1].a[0].a[0] is selfp:
                return not have
            if c.op == "param" and c.a[1] == "evaluate_constants" or c.op == "truth" and c.a[0].op == "param" and c.a[0].a[1] == "evaluate_constants":
                return False
            return None
        return leaf
    for what, f in (("constants are evaluated", EV), ("the expression of a backend is built", BU)):
        calls = [e for e in r.evs("call") if e.callee.op == "func" and e.callee.a[0] == f]
        if not calls:
            other = [e for e in r.evs("call") if e.callee.op == "func" and e.callee.a[0] == dev]
            ctx.unk(R, f"{what} once", ctx.p.fn(call).loc, "no call recognised")
            continue
        for e in calls:
            g = reachable(e.facts, leaf_of(True))
            ctx.put(None if g is None else not g, R, f"{what} once", e.loc, "done again for a backend for which it was done before")
            ctx.put(reachable(e.facts, leaf_of(False)), R, f"{what} when it is first needed", e.loc, "never done")
    # ... and kept
    for fq, name, f, key in ((call, "the expression of a backend", BU, None),):
        st = [e for e in r.evs("mutate") if e.op == "setitem" and e.obj.op == "attr" and e.obj.a[0] is selfp and contains(e.args[1], lambda x: is_call(x, f))]
        if not st:
            sd = [e for e in r.evs("mutate") if e.op in ("setdefault", "update") and e.obj.op == "attr" and e.obj.a[0] is selfp] + \
                [e for e in r.evs("setattr") if e.obj is selfp]
            ctx.put(None if sd else False, R, f"{name} is kept", ctx.p.fn(fq).loc, "built for every call: no path stores it")
        asked = {(x.a[2], x.a[1]) for e in r.events for q in e.facts for x in subterms(q) if x.op == "cmp" and x.a[0] == "in" and x.a[2].op == "attr" and x.a[2].a[0] is selfp}
        for e in st:
            a, c = always(e, [w for w in r.evs("call") if w.callee.op == "func" and w.callee.a[0] == f], leaf_of(False), {mk("attr", selfp, x) for x in own_attrs(ctx)} | set(r.params.values()) - {selfp})
            if a is not True:
                ctx.put(None if len(st) > 1 else a, R, f"{name} is kept whatever is asked", e.loc, "only if " + show(c, 5))
            ctx.put((e.obj, e.args[0]) in asked or (None if not asked else False), R, f"{name} is kept", e.loc, f"stored in {show(e.obj, 3)}[{show(e.args[0], 4)}], where it is not looked up")
    # the constants: what evaluate_constants stores is what calls look up
    r2 = ctx.run(EV, opaque={"contract.parse_backend", dev, call})
    s2 = r2.params["self"]
    st = [e for e in r2.evs("mutate") if e.op == "setitem" and e.obj.op == "attr" and e.obj.a[0] is s2]
    tabs = {x.a[2].a[1] for e in r.events if e.kind == "call" and e.callee.op == "func" and e.callee.a[0] == EV for q in e.facts for x in subterms(q)
            if x.op == "cmp" and x.a[0] == "in" and x.a[2].op == "attr" and x.a[2].a[0] is selfp}
    if not tabs:
        ctx.unk(R, "evaluated constants are kept", ctx.p.fn(EV).loc, "no look-up recognised")
        return
    mine = [e for e in st if e.obj.a[1] in tabs]
    if not mine:
        sd = [e for e in r2.evs("mutate") if e not in st and e.op in ("setdefault", "update")] + [e for e in r2.evs("setattr") if e.name in tabs]
        ctx.put(None if sd else False, R, "evaluated constants are kept", ctx.p.fn(EV).loc, "no path stores them in " + ", ".join(sorted(tabs)))
        return
    bp = r2.params.get("backend")
    for e in mine:
        a, c = always(e, [], lambda z, env: None, {mk("attr", s2, x) for x in own_attrs(ctx)} | set(r2.params.values()) - {s2})
        if a is not True:
            ctx.put(None if len(mine) > 1 else a, R, "evaluated constants are kept whatever is asked", e.loc, "only if " + show(c, 5))
        k = e.args[0]
        ok = True if is_call(k, "contract.parse_backend") and contains(k, bp) or k is bp else False if not contains(k, bp) else None
        ctx.put(ok, R, "evaluated constants are kept", e.loc, f"stored under {show(k, 4)}")


def check(ctx):
    ctx.rule("currently_sharing", r_currently)
    for outer, fq in wrappers(ctx):
        ctx.rule(f"{outer.split('.')[-1]}: once", lambda c, o=outer, f=fq: r_wrapper(c, o, f))
    ctx.rule("wrapped operations", r_primitive)
    ctx.rule("conversions", r_conversion)
    ctx.rule("to_backend_cache_wrap: forms", r_factory)
    ctx.rule("expressions", r_expression)
