"""C17: every backend computes the contraction that was asked for."""
import ast

from sa.engine import is_call, mcall
from sa.kit import Undecided, numeval, numleaf, pick, show, strip, truth_of
from sa.src import AnalysisBroken
from sa.terms import FALSE, NONE, TRUE, const, contains, cval, is_const, mk, rebuild, subterms
from .common import Fails, call_arg, cases, gassign, pointeval

DESC = ("Sibling agreement over the backends: for every entry of the two tables the builder and the evaluator of constants are reduced to the call of the expression they make (operands, their conversion, "
        "order, backend, result conversion) and compared with the one contract all of them have; converters are evaluated for arrays and non-arrays in each mode; the adapters (torch) and the loop over "
        "objects are matched with the definition of the operation they stand for.")

D = "backends.dispatch."
SEQ = ("builtins.list", "builtins.tuple", "builtins.iter")
# where a library keeps its numpy-like functions
HOMES = {"dask": "dask.array", "theano": "theano.tensor", "torch": "opt_einsum.backends.torch", "jax": "jax.numpy", "jaxlib": "jax.numpy", "autograd": "autograd.numpy", "mars": "mars.tensor",
         "numpy": "numpy", "cupy": "cupy", "tensorflow": "tensorflow", "sparse": "sparse"}


def under(t, leaf):
    """the term with every gate decided that the leaf decides"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == "esc":
                r = go(x.a[0])
            elif x.op == "phi":
                try:
                    r = go(x.a[1] if truth_of(x.a[0], None, leaf) else x.a[2])
                except Undecided:
                    r = rebuild(x, go)
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def seqv(t, *bases):
    """t is the sequence, whole and in order: True; a part or another order of it: False; None"""
    t = strip(t, *SEQ)
    if t.op == "esc":
        t = strip(t.a[0], *SEQ)
    if t in bases:
        return True
    if t.op == "idx" and t.a[1].op == "slice":
        return False if seqv(t.a[0], *bases) and not all(z is NONE for z in t.a[1].a) else None
    if is_call(t, "builtins.reversed", "builtins.sorted", "builtins.set", "builtins.frozenset", "itertools.islice") and t.a[1]:
        return False if seqv(t.a[1][0], *bases) else None
    return None


def table(ctx, fn):
    """{backend: function} of the table a dispatching function looks into, and the call made"""
    r = ctx.run(D + fn, public=True)
    t = r.eng.freeze(r.ret, r.state)
    P = list(r.params.values())
    if t.op != "call" or t.a[0].op != "idx" or t.a[0].a[0].op != "gvar" or len(P) != 3:
        raise Undecided("dispatch " + show(t, 5))
    f = ctx.p.fn(D + fn)
    ctx.put(t.a[0].a[1] is P[0] or mcall(t.a[0].a[1], "lower") is P[0], "tables", f"{fn}: looks up the backend asked for", f.loc, show(t.a[0], 4))
    ctx.put(tuple(t.a[1]) == (P[1], P[2]) if not t.a[2] else None, "tables", f"{fn}: passes arrays and expression", f.loc, show(t, 4))
    node = gassign(ctx, t.a[0].a[0])
    if not isinstance(node, ast.Dict):
        raise Undecided("table " + show(t.a[0].a[0]))
    out = {}
    for k, v in zip(node.keys, node.values):
        if not isinstance(k, ast.Constant):
            raise Undecided("table key")
        x = ctx.p.lookup_expr(f.mod, v)
        out[k.value] = (x.a[0] if x is not None and x.op == "func" else None, f"{f.mod.rel}:{k.lineno}")
    return out


def r_tables(ctx):
    R = "tables"
    b, e = table(ctx, "build_expression"), table(ctx, "evaluate_constants")
    for k in sorted(set(b) | set(e)):
        ctx.put(k in b and k in e, R, f"{k}: both builder and evaluator", (b.get(k) or e.get(k))[1], "only one of the two tables knows the backend")
        for what, tb in (("build_expression", b), ("evaluate_constants", e)):
            if k in tb:
                fq, loc = tb[k]
                if fq is None:
                    ctx.unk(R, f"{k}: {what}", loc)
                    continue
                mod = fq.split(".")[1]
                ctx.put(True if mod == k else False if mod in b or mod in e else None, R, f"{k}: own module", loc, f"{fq} is called for {k}")
                ctx.put(True if fq.split(".")[2].startswith(what) else False if fq.split(".")[2].startswith(("build_expression", "evaluate_constants")) else None, R,
                        f"{k}: {what} kind", loc, f"{fq} in the table of {what}")


# ---------------------------------------------------------------- tensorflow's two modes
def eager_pos(ctx):
    """positions of module and mode in what the cached getter returns"""
    fq = "backends.tensorflow._get_tensorflow_and_device"
    if fq not in ctx.p.fns:
        return None
    r = ctx.run(fq)
    for e in r.events:
        for v in e.d.values():
            if hasattr(v, "op"):
                for x in subterms(v):
                    if x.op == "tup" and len(x.a) == 3:
                        p = [i for i, y in enumerate(x.a) if contains(y, lambda z: z.op == "attr" and z.a[1] == "executing_eagerly" or z.op == "ext" and z.a[0].endswith(".executing_eagerly"))]
                        if len(p) == 1:
                            return p[0]
    t = r.eng.freeze(r.ret, r.state)
    for x in subterms(t):
        if x.op == "tup" and len(x.a) == 3:
            p = [i for i, y in enumerate(x.a) if contains(y, lambda z: z.op == "attr" and z.a[1] == "executing_eagerly" or z.op == "ext" and z.a[0].endswith(".executing_eagerly"))]
            if len(p) == 1:
                return p[0]
    return None


GETTERS = frozenset({"backends.tensorflow._get_tensorflow_and_device", "backends.torch._get_torch_and_device", "backends.jax._get_jax_and_to_jax"})


def modes(ctx, key):
    """[(name, leaf)] of the modes a backend may be in"""
    if key != "tensorflow":
        return [("", lambda c, e: None)]
    p = eager_pos(ctx)

    def leaf_for(v):
        def leaf(c, e):
            if c.op == "idx" and is_call(c.a[0], "backends.tensorflow._get_tensorflow_and_device") and p is not None and is_const(c.a[1]):
                return v if cval(c.a[1]) == p else True     # module and device name are true
            return None
        return leaf
    return [(" (eager)", leaf_for(True)), (" (graph)", leaf_for(False))]


def opaque(ctx):
    conv = {q for q in ctx.p.fns if q.startswith("backends.") and q.split(".")[-1].startswith("to_") and q.count(".") == 2}
    return frozenset(conv | GETTERS | {"helpers.has_array_interface", "parser.convert_to_valid_einsum_chars"})


def built(ctx, key, fq):
    """the term a compiled function returns for later arrays: (term, arrays of the first call, expr, later arrays)"""
    k = ("c17built", fq)
    if k not in ctx.cache:
        from sa.engine import Engine
        f = ctx.p.fn(fq)
        e = Engine(ctx.p, opaque=opaque(ctx))
        r = e.run(fq)
        L = mk("param", "later", "later")
        ret = r.eng.freeze(r.ret, r.state)
        t = e.apply(f.node, r.ret, [mk("star", L)], [], r.frame, r.state)
        ctx.fnset.add(fq)
        ctx.callsites += sum(x.kind == "call" for x in r.events)
        ctx.cache[k] = (e.freeze(t, r.state), list(r.params.values()), L, ret)
    return ctx.cache[k]


def conv_call(t, elem, key, constant=None):
    """t converts the element to the backend: (True/False/None, constant flag)"""
    if t is elem:
        return False, None
    if t.op == "call" and t.a[1] and t.a[1][0] is elem:
        c = t.a[0]
        flag = dict(t.a[2]).get("constant", t.a[1][1] if len(t.a[1]) > 1 else FALSE)
        if c.op == "func":
            own = c.a[0].startswith(f"backends.{key}.")
            return (True if own else False if c.a[0].startswith("backends.") else None), flag
        if c.op == "idx" and is_call(c.a[0], f"backends.{key}._get_jax_and_to_jax"):
            return (True if is_const(c.a[1], 1) else False), flag
        if c.op == "ext" and c.a[0].startswith(key):
            return True, flag
    return None, None


def converted(t, arrays, key, constant=None):
    """t holds all the arrays, converted, in order: (verdict, message)"""
    x = strip(t, *SEQ)
    if x is arrays:
        return False, "the arrays are not converted"
    if x.op == "comp" and x.a[0] in ("list", "gen", "tuple") and len(x.a[2]) == 1:
        it = strip(x.a[2][0], *SEQ)
        if it is not arrays:
            if seqv(it, arrays) is False:
                return False, "not all arrays in order: " + show(it, 4)
            return None, show(it, 4)
        if x.a[3] is not TRUE:
            return False, "arrays are left out: " + show(x.a[3], 4)
        ok, flag = conv_call(x.a[1], mk("elem", x.a[2][0], 0), key)
        if ok is None and x.a[1].op == "phi":
            vs = [conv_call(v, mk("elem", x.a[2][0], 0), key) for _, v in cases(x.a[1])]
            # None stays None
            vs = [y for (l, v), y in zip(cases(x.a[1]), vs) if v is not NONE]
            if vs and all(y[0] is True for y in vs):
                ok, flag = vs[0]
        if ok is not True:
            return ok, "elements are " + show(x.a[1], 4)
        if constant is not None and flag is not (TRUE if constant else FALSE):
            return (False if flag.op == "const" else None), f"converted with constant={show(flag)}"
        return True, ""
    return None, show(t, 5)


# ---------------------------------------------------------------- builders
def r_build(ctx):
    R = "compiled functions"
    for key, (fq, loc) in sorted(table(ctx, "build_expression").items()):
        if fq is None:
            continue
        try:
            t, P, L, ret = built(ctx, key, fq)
        except Undecided as u:
            ctx.unk(R, key, loc, str(u))
            continue
        f = ctx.p.fn(fq)
        for m, leaf in modes(ctx, key):
            one_build(ctx, R, key, m, f, under(t, leaf), P, L)


def core(t, expr):
    """calls of the expression inside a term"""
    out = []
    for x in subterms(t):
        if x.op == "call":
            c = x.a[0]
            if c.op == "attr" and c.a[0] is expr and c.a[1] == "_contract" or c is expr:
                out.append((x, False))
            elif c.op == "call" and len(c.a[1]) == 1 and c.a[1][0].op == "attr" and c.a[1][0].a[0] is expr and c.a[1][0].a[1] == "_contract":
                out.append((x, True))
    return out


def one_build(ctx, R, key, m, f, t, P, L):
    nm = key + m
    if len(P) != 2:
        ctx.unk(R, nm, f.loc, "parameters")
        return
    first, expr = P
    cs = core(t, expr)
    if not cs:
        ctx.unk(R, f"{nm}: contracts", f.loc, show(t, 6))
        return
    graph = False
    for x, jit in cs:
        a = x.a[1]
        kws = dict(x.a[2])
        if x.a[0] is expr:
            ctx.unk(R, f"{nm}: contracts", f.loc, show(x, 4))
            continue
        ops = kws.get("arrays", a[0] if a else None)
        if ops is None:
            ctx.unk(R, f"{nm}: all operands in order", f.loc, show(x, 4))
        else:
            graph = contains(ops, lambda y: y is first) and not contains(ops, lambda y: y is L)
            if jit and seqv(ops, L) is not None:
                v, msg = seqv(ops, L), show(ops, 4)
            else:
                v, msg = converted(ops, first if graph else L, key)
            ctx.put(v, R, f"{nm}: all operands in order", f.loc, msg)
        b = kws.get("backend", a[2] if len(a) > 2 else None)
        if b is None or is_const(b, "auto"):
            ctx.ok(R, f"{nm}: contracts with its own library", f.loc)
        else:
            ctx.put(cval(b) == key if b.op == "const" else None, R, f"{nm}: contracts with its own library", f.loc, f"backend={show(b)}")
        o = kws.get("out", a[1] if len(a) > 1 else None)
        if o is not None:
            ctx.put(o is NONE or None, R, f"{nm}: no output array", f.loc, show(o))
        x0 = x
    if len({x for x, _ in cs}) == 1:
        result(ctx, R, key, m, f, t, x0, graph, first, L)
    else:
        ctx.unk(R, f"{nm}: gives a numpy array", f.loc, "several calls of the expression")


def result(ctx, R, key, m, f, t, x, graph, first, L):
    """what is returned: the result as a numpy array"""
    nm = f"{key}{m}"
    nn = f"{nm}: gives a numpy array"
    if key == "torch":
        for dev in ("cpu", "cuda"):
            def leaf(c, e):
                if c.op == "cmp" and c.a[0] == "eq" and c.a[1].op == "attr" and c.a[1].a[1] == "type" and c.a[2].op == "const":
                    return cval(c.a[2]) == dev
                if c.op == "attr" and c.a[1] == "is_cuda":
                    return dev == "cuda"
                return None
            v = under(t, leaf)
            chain, y = [], v
            while y is not x and y.op == "call" and y.a[0].op == "attr":
                chain.append(y.a[0].a[1])
                y = y.a[0].a[0]
            if y is not x:
                ctx.unk(R, f"{nn} ({dev})", f.loc, show(v, 5))
                continue
            chain.reverse()
            known = {"cpu", "numpy", "detach", "resolve_conj", "resolve_neg", "contiguous"}
            if not set(chain) <= known:
                ctx.put(None, R, f"{nn} ({dev})", f.loc, " ".join(chain))
            else:
                ok = chain[-1:] == ["numpy"] and (dev == "cpu" or "cpu" in chain)
                ctx.put(ok, R, f"{nn} ({dev})", f.loc, f"result.{'.'.join(chain)}()")
        return
    if t is x:
        ctx.bad(R, nn, f.loc, "the library's own array is returned")
        return
    if key == "theano":
        if t.op != "call" or not (t.a[0].op == "call"):
            ctx.unk(R, nn, f.loc, show(t, 5))
            return
        fun = t.a[0]
        ok = len(fun.a[1]) >= 2 and fun.a[1][1] is x
        ctx.put(True if ok else None, R, nn, f.loc, show(fun, 4))
        if ok:
            symbolic(ctx, R, key, f, fun.a[1][0], t.a[1], x.a[1][0] if x.a[1] else None, L)
        return
    if key == "tensorflow" and graph:
        c = t.a[0] if t.op == "call" else None
        ok = c is not None and c.op == "attr" and c.a[1] == "run" and t.a[1] and t.a[1][0] is x
        ctx.put(True if ok else False if mcall(t, "numpy") is x else None, R, nn, f.loc, show(t, 4))
        if ok:
            feed = dict(t.a[2]).get("feed_dict", t.a[1][1] if len(t.a[1]) > 1 else None)
            if feed is None:
                ctx.bad(R, f"{nm}: later arrays are fed", f.loc, "no feed_dict")
            else:
                fed(ctx, R, nm, f, feed, x.a[1][0], L)
        return
    if mcall(t, "numpy") is x and key == "tensorflow" or mcall(t, "get") is x and key == "cupy":
        ctx.put(True if "graph" not in m else False, R, nn, f.loc, "graph tensors have no numpy()")
        return
    if is_call(t, "numpy.asarray", "numpy.array", "cupy.asnumpy", "jax.device_get") and t.a[1] and t.a[1][0] is x:
        ctx.ok(R, nn, f.loc)
        return
    ctx.put(None, R, nn, f.loc, show(t, 5))


def fed(ctx, R, nm, f, feed, ops, L):
    """{placeholder: array} in step, for exactly the placeholders"""
    n = f"{nm}: later arrays are fed"
    if feed.op != "comp" or feed.a[0] != "dict" or feed.a[1].op != "tup":
        ctx.unk(R, n, f.loc, show(feed, 5))
        return
    k, v = feed.a[1].a
    base = next((y for y in subterms(k) if y.op == "elem" or y.op == "idx"), None)
    kk, vv = elem_of(k), elem_of(v)
    ok = kk is not None and strip(kk, *SEQ) is strip(ops, *SEQ) and vv is L
    ctx.put(True if ok else False if kk is L or kk is not None and vv is not None and (seqv(kk, strip(ops, *SEQ)) is False or seqv(vv, L) is False) else None, R, n, f.loc, show(feed, 5))
    c = feed.a[3]
    if c is TRUE:
        ctx.bad(R, f"{nm}: constants are not fed", f.loc, "every operand is fed, also the constants that have values")
        return

    def leaf(kind):
        def g(x, e):
            if x.op == "cmp" and x.a[0] == "eq" and x.a[1].op == "attr" and x.a[1].a[1] == "type" and x.a[2].op == "const":
                return cval(x.a[2]) == kind
            return None
        return g
    try:
        a, b = truth_of(c, None, leaf("Placeholder")), truth_of(c, None, leaf("Const"))
        ctx.put(a and not b, R, f"{nm}: constants are not fed", f.loc, show(c, 5))
    except Undecided as u:
        ctx.unk(R, f"{nm}: constants are not fed", f.loc, str(u))


def elem_of(t):
    """the sequence t is the element of (through zip)"""
    if t.op == "elem":
        return t.a[0]
    return None


def symbolic(ctx, R, key, f, ins, args, ops, L):
    n = f"{key}: later arrays are fed"
    if ins.op != "comp" or ops is None:
        ctx.unk(R, n, f.loc, show(ins, 5))
        return
    src = strip(ins.a[2][0], *SEQ)
    ok = src is strip(ops, *SEQ) and ins.a[1] is mk("elem", ins.a[2][0], 0)
    ctx.put(True if ok else None, R, f"{key}: inputs of the graph", f.loc, show(ins, 5))
    if len(args) != 1 or args[0].op != "star" or args[0].a[0].op != "comp":
        ctx.unk(R, n, f.loc, show(args[0], 5) if args else "")
        return
    c = args[0].a[0]
    if strip(c.a[2][0], *SEQ) is not L or c.a[1] is not mk("elem", c.a[2][0], 0):
        ctx.put(seqv(c.a[2][0], L) and None, R, n, f.loc, show(c, 5))
        return

    def leaf(v):
        def g(x, e):
            if x.op == "isinstance":
                return v
            return None
        return g
    try:
        g = [truth_of(ins.a[3], None, leaf(v)) for v in (True, False)]
        h = [truth_of(c.a[3], None, leaf(v)) for v in (True, False)]
        ctx.put(g == [False, True] and h == [False, True], R, n, f.loc, f"graph inputs where {show(ins.a[3], 4)}, arguments where {show(c.a[3], 4)}")
    except Undecided as u:
        ctx.unk(R, n, f.loc, str(u))


# ---------------------------------------------------------------- constants
def r_consts(ctx):
    R = "evaluation of constants"
    for key, (fq, loc) in sorted(table(ctx, "evaluate_constants").items()):
        if fq is None:
            continue
        f = ctx.p.fn(fq)
        r = ctx.run(fq, opaque=opaque(ctx))
        P = list(r.params.values())
        if len(P) != 2:
            ctx.unk(R, key, f.loc, "parameters")
            continue
        arrays, expr = P
        for m, leaf in modes(ctx, key):
            nm = key + m
            graph = key == "theano" or "graph" in m
            t = under(r.eng.freeze(r.ret, r.state), leaf)
            cs = {x for x in subterms(t) if x.op == "call" and x.a[0] is expr}
            if len(cs) != 1:
                ctx.unk(R, f"{nm}: runs the expression", f.loc, show(t, 5))
                continue
            x = cs.pop()
            kws = dict(x.a[2])
            if len(x.a[1]) == 1 and x.a[1][0].op == "star":
                v, msg = converted(x.a[1][0].a[0], arrays, key, True if graph else None)
                ctx.put(v, R, f"{nm}: all operands in order, converted", f.loc, msg)
            else:
                ctx.unk(R, f"{nm}: all operands in order, converted", f.loc, show(x, 5))
            ctx.put(False if not is_const(kws.get("evaluate_constants", FALSE)) is False and kws.get("evaluate_constants") is not TRUE else True if kws.get("evaluate_constants") is TRUE else None,
                    R, f"{nm}: asks for evaluation only", f.loc, f"evaluate_constants={show(kws['evaluate_constants']) if 'evaluate_constants' in kws else 'absent'}")
            b = kws.get("backend")
            if b is None or is_const(b, "auto"):
                # constants only: inferred from the converted arrays, None among them
                ctx.unk(R, f"{nm}: with its own library", f.loc, "backend is inferred")
            else:
                ctx.put(cval(b) == key if b.op == "const" else None, R, f"{nm}: with its own library", f.loc, f"backend={show(b)}")
            if t is x:
                ctx.put(True if not graph else None, R, f"{nm}: returns operands and steps left", f.loc, "")
                continue
            if t.op != "tup" or len(t.a) != 2:
                ctx.unk(R, f"{nm}: returns operands and steps left", f.loc, show(t, 5))
                continue
            ctx.put(True if t.a[1] is mk("idx", x, const(1)) else False if t.a[1] is mk("idx", x, const(0)) else None, R, f"{nm}: returns the steps left", f.loc, show(t.a[1], 4))
            evaluated(ctx, R, nm, f, t.a[0], mk("idx", x, const(0)), key, r)


def evaluated(ctx, R, nm, f, t, ops, key, r):
    n = f"{nm}: values in the places of the operands"
    x = strip(t, *SEQ)
    if x.op != "comp" or len(x.a[2]) != 1 or strip(x.a[2][0], *SEQ) is not ops:
        ctx.put(None if contains(t, lambda u: u is ops) else False, R, n, f.loc, "the evaluated operands are not used: " + show(t, 5))
        return
    if x.a[3] is not TRUE:
        ctx.bad(R, n, f.loc, "operands are left out where not " + show(x.a[3], 4))
        return
    el = mk("elem", x.a[2][0], 0)

    def leaf(isnone):
        def g(c, e):
            if c.op == "cmp" and c.a[0] in ("is", "eq") and c.a[1] is el and c.a[2] is NONE:
                return isnone
            return None
        return g
    try:
        a, b = pick(x.a[1], leaf(True)), pick(x.a[1], leaf(False))
    except Undecided as u:
        ctx.unk(R, n, f.loc, str(u))
        return
    ctx.put(a is NONE or a is el, R, f"{nm}: missing operands stay missing", f.loc, show(a, 4))
    if b is NONE or b is el:
        ctx.bad(R, n, f.loc, f"a constant becomes {show(b, 3)}")
        return
    if b.op != "call" or not b.a[1]:
        ctx.unk(R, n, f.loc, show(b, 4))
        return
    flag = dict(b.a[2]).get("constant", b.a[1][1] if len(b.a[1]) > 1 else FALSE)
    ctx.put(True if flag is TRUE else False if flag is FALSE else None, R, f"{nm}: values are kept as constants", f.loc, f"constant={show(flag)}")
    v = b.a[1][0]
    if mcall(v, "eval") is el:
        ctx.ok(R, n, f.loc)
    elif v.op == "next":
        it = strip(v.a[0], *SEQ)
        if it.op == "call" and it.a[0].op == "attr" and it.a[0].a[1] == "run" and it.a[1]:
            c = strip(it.a[1][0], *SEQ)
            if c is ops:
                ctx.bad(R, n, f.loc, "missing operands are evaluated too")
                return
            if c.op == "comp" and strip(c.a[2][0], *SEQ) is ops and c.a[1] is mk("elem", c.a[2][0], 0):
                e2 = c.a[1]

                def leaf2(isnone):
                    def g(q, e):
                        if q.op == "cmp" and q.a[0] in ("is", "eq") and q.a[1] is e2 and q.a[2] is NONE:
                            return isnone
                        return None
                    return g
                try:
                    ok = not truth_of(c.a[3], None, leaf2(True)) and truth_of(c.a[3], None, leaf2(False))
                    ctx.put(ok, R, n, f.loc, "evaluates where " + show(c.a[3], 4))
                    return
                except Undecided:
                    pass
        ctx.unk(R, n, f.loc, show(v, 5))
    else:
        ctx.unk(R, n, f.loc, show(v, 5))


# ---------------------------------------------------------------- converters
def r_conv(ctx):
    R = "conversions"
    for q in sorted(opaque(ctx)):
        parts = q.split(".")
        if parts[0] != "backends" or not parts[-1].startswith("to_"):
            continue
        key = parts[1]
        f = ctx.p.fn(q)
        r = ctx.run(q, opaque=opaque(ctx) - {q})
        P = list(r.params.values())
        arr = P[0]
        flag = P[1] if len(P) > 1 else None
        t = r.eng.freeze(r.ret, r.state)
        for m, ml in modes(ctx, key):
            for isarr in (True, False):
                for cst in ((True, False) if flag is not None else (None,)):
                    nm = f"{parts[-1]}{m}: {'array' if isarr else 'other object'}{'' if cst is None else ', constant' if cst else ', operand'}"

                    def leaf(c, e):
                        v = ml(c, e)
                        if v is not None:
                            return v
                        if c is flag:
                            return cst
                        if is_call(c, "helpers.has_array_interface") and c.a[1] and c.a[1][0] is arr:
                            return isarr
                        if c.op == "hasattr" and c.a[0] is arr:
                            return isarr
                        return None
                    v = under(t, leaf)
                    if v.op == "phi":
                        ctx.unk(R, nm, f.loc, show(v, 4))
                        continue
                    if not isarr:
                        ctx.put(True if v is arr else None if not contains(v, lambda y: y is arr) and v is not NONE else False, R, nm, f.loc, f"becomes {show(v, 4)}")
                        continue
                    if v is arr or v is NONE:
                        ctx.bad(R, nm, f.loc, "the array is not converted" if v is arr else "the array is lost")
                        continue
                    bare = [y for y in subterms(v, stop=lambda z: z.op == "attr" and z.a[0] is arr and z.a[1] in ("shape", "dtype", "ndim")) if y is arr]
                    symb = key == "theano" or "graph" in m
                    if not symb or cst:
                        ctx.put(bool(bare), R, nm, f.loc, f"the values are lost: {show(v, 4)}")
                        if bare:
                            ctx.put(whole(v, arr), R, nm + ": whole", f.loc, show(v, 5))
                    else:
                        ctx.put(not bare, R, nm, f.loc, f"the values of one call are built in: {show(v, 4)}")
                        want(ctx, R, nm, f, v, arr, key)


def whole(v, arr):
    """the array is passed as it is to the conversion"""
    for y in subterms(v):
        if y.op == "call" and any(z is arr for z in y.a[1]):
            return True
        if y.op in ("idx", "bin", "elem") and any(z is arr for z in y.a if hasattr(z, "op")):
            return False
    return None


def want(ctx, R, nm, f, v, arr, key):
    dt, sh = mk("attr", arr, "dtype"), mk("attr", arr, "shape")
    if not contains(v, lambda y: y is dt):
        ctx.put(None if contains(v, lambda y: y.op == "attr" and y.a[0] is arr and y.a[1] == "dtype") else False, R, nm + ": type kept", f.loc, show(v, 5))
    else:
        ctx.ok(R, nm + ": type kept", f.loc)
    ctx.put(True if contains(v, lambda y: y is sh or y is mk("attr", arr, "ndim")) else False, R, nm + ": shape kept", f.loc, show(v, 5))
    # placeholder(dtype, shape)
    for y in subterms(v):
        if y.op == "call" and y.a[0].op == "attr" and y.a[0].a[1] == "placeholder":
            kw = dict(y.a[2])
            pos = dict(zip(("dtype", "shape"), y.a[1]))
            d, s = kw.get("dtype", pos.get("dtype")), kw.get("shape", pos.get("shape"))
            bad = d is not None and contains(d, lambda z: z is sh) or s is not None and contains(s, lambda z: z is dt)
            ctx.put(False if bad else True if d is not None and contains(d, lambda z: z is dt) else None, R, nm + ": type and shape in their places", f.loc, show(y, 4))
    # broadcastable=[False] * ndim
    for y in subterms(v):
        if y.op == "call":
            b = dict(y.a[2]).get("broadcastable")
            if b is not None:
                es = [b.a[1]] if b.op == "comp" else [w for z in subterms(b) if z.op in ("lst", "tup") for w in z.a]
                ctx.put(False if TRUE in es else True if es and all(w is FALSE for w in es) else None, R, nm + ": no dimension is assumed to be 1", f.loc, show(b, 5))


# ---------------------------------------------------------------- where functions are looked up
def r_homes(ctx):
    R = "libraries"
    r = ctx.run(D + "_import_func")
    f = ctx.p.fn(D + "_import_func")
    calls = [e for e in r.events if e.kind == "call" and e.callee.op == "ext" and e.callee.a[0] == "importlib.import_module"]
    if not calls:
        raise Undecided("no import")
    func, backend = list(r.params.values())[:2]
    for e in calls:
        t = e.args[0] if e.args else dict(e.kws).get("name")
        for lib, home in sorted(HOMES.items()):
            v = resolve_home(ctx, t, backend, lib)
            if v is None:
                ctx.unk(R, f"{lib}: where its functions are", e.loc, show(t, 5))
            else:
                ctx.put(v == home, R, f"{lib}: where its functions are", e.loc, f"taken from {v}, they are in {home}")
        # the function asked for, of that module
    for _, v in cases(r.eng.freeze(r.ret, r.state)):
        if is_call(v, "builtins.getattr") and len(v.a[1]) > 1 or v.op == "getattr":
            g = v.a[1][1] if v.op == "call" else v.a[1]
            ctx.put(True if g is func else False if g.op in ("param", "const") else None, R, "the function asked for", f.loc, show(v, 4))
    # functions known from the start
    m = f.mod
    n = 0
    for node in ast.walk(m.tree):
        items = []
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            k = node.targets[0].slice
            if isinstance(k, ast.Tuple):
                items = [(k, node.value)]
        elif isinstance(node, ast.Dict):
            items = [(k, v) for k, v in zip(node.keys, node.values) if isinstance(k, ast.Tuple)]
        for k, v in items:
            if len(k.elts) != 2 or not all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in k.elts):
                continue
            fn, lib = (x.value for x in k.elts)
            loc = f"{m.rel}:{k.lineno}"
            x = ctx.p.lookup_expr(m, v)
            n += 1
            nm = f"{lib}.{fn}"
            if x is None or x.op not in ("ext", "func"):
                ctx.unk(R, nm, loc, ast.unparse(v))
                continue
            have = x.a[0]
            if lib == "object" and fn == "einsum":
                ctx.put(True if x.op == "func" and have.endswith("object_einsum") else False if x.op == "ext" else None, R, nm, loc, have)
            elif lib in ("numpy", "object"):
                ctx.put(have == f"numpy.{fn}" if x.op == "ext" else None, R, nm, loc, have)
            else:
                ctx.put(True if have == f"{HOMES.get(lib, lib)}.{fn}" else None, R, nm, loc, have)


def resolve_home(ctx, t, backend, lib):
    if t is backend:
        return lib
    if t.op == "get" and t.a[0].op == "gvar" and t.a[1] is backend:
        node = gassign(ctx, t.a[0])
        if isinstance(node, ast.Dict) and all(isinstance(k, ast.Constant) and isinstance(v, ast.Constant) for k, v in zip(node.keys, node.values)):
            d = {k.value: v.value for k, v in zip(node.keys, node.values)}
            if lib in d:
                return d[lib]
            return resolve_home(ctx, t.a[2], backend, lib)
    if t.op == "phi":
        def leaf(c, e):
            if c.op == "cmp" and c.a[0] == "in" and c.a[1] is backend and c.a[2].op == "gvar":
                node = gassign(ctx, c.a[2])
                if isinstance(node, ast.Dict):
                    return lib in {k.value for k in node.keys if isinstance(k, ast.Constant)}
            return None
        try:
            return resolve_home(ctx, pick(t, leaf), backend, lib)
        except Undecided:
            return None
    if t.op == "idx" and t.a[0].op == "gvar" and t.a[1] is backend:
        return resolve_home(ctx, mk("get", t.a[0], backend, NONE), backend, lib)
    return None


# ---------------------------------------------------------------- torch adapters
def r_torch(ctx):
    R = "torch functions"
    op = opaque(ctx)
    f = ctx.p.fn("backends.torch.transpose")
    r = ctx.run("backends.torch.transpose", opaque=op)
    a, axes = list(r.params.values())[:2]
    t = r.eng.freeze(r.ret, r.state)
    x = None
    if mcall(t, "permute") is a and t.a[1]:
        x = t.a[1][0]
        x = x.a[0] if x.op == "star" else x
        x = strip(x, *SEQ)
    elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "permute" and len(t.a[1]) == 2 and t.a[1][0] is a:
        x = strip(t.a[1][1], *SEQ)
    if mcall(t, "permute") is a and t.a[1] and t.a[1][0].op == "star":
        ctx.bad(R, "transpose of an array without dimensions", f.loc, "permute() needs an argument: axes must be passed as one tuple")
    else:
        ctx.ok(R, "transpose of an array without dimensions", f.loc)
    ctx.put(seqv(x, axes) if x is not None else None, R, "transpose permutes by the axes", f.loc, show(t, 4))
    # einsum
    f = ctx.p.fn("backends.torch.einsum")
    r = ctx.run("backends.torch.einsum", opaque=op)
    P = r.params
    eq, ops, kws = P.get("equation"), P.get("operands"), P.get("kwargs")
    calls = [e for e in r.evs("call") if e.name == "einsum" or e.callee.op == "attr" and e.callee.a[1] == "einsum"]
    if not calls:
        ctx.unk(R, "einsum", f.loc, "no call of torch.einsum")
    for e in calls:
        s = e.args[0] if e.args else None
        ctx.put(None if s is None else True if s is eq or is_call(s, "parser.convert_to_valid_einsum_chars") and s.a[1][0] is eq else None, R, "einsum: the equation asked for", e.loc, show(s, 4) if s is not None else "")
        o = e.args[1:]
        o = o[0].a[0] if len(o) == 1 and o[0].op == "star" else o[0] if len(o) == 1 else None
        o = strip(o, *SEQ) if o is not None else None
        ctx.put(True if o is ops else seqv(o, ops) if o is not None else None, R, "einsum: all operands in order", e.loc, show(o, 4) if o is not None else "")
    t = r.eng.freeze(r.ret, r.state)
    res = calls[-1].d.get("term") if calls else None

    def outt(c):
        return c.op == "get" and c.a[0] is kws and is_const(c.a[1], "out") or c is P.get("out") or mcall(c, "pop") is kws
    for given in (False, True):
        def leaf(c, e):
            if c.op == "cmp" and c.a[0] in ("is", "eq") and c.a[2] is NONE and outt(c.a[1]):
                return not given
            if c.op == "cmp" and c.a[0] == "in" and is_const(c.a[1], "out"):
                return given
            if outt(c):
                return given
            return None
        try:
            v = pick(t, leaf)
        except Undecided as u:
            ctx.unk(R, "einsum: result", f.loc, str(u))
            continue
        if not given:
            ctx.put(True if v is res else False if v is NONE or outt(v) else None, R, "einsum: returns the result", f.loc, show(v, 4))
        else:
            ctx.put(True if outt(v) or contains(v, outt) and v.op in ("setitem", "esc") else False if v is NONE or v is res else None, R, "einsum: returns the output array", f.loc, show(v, 4))
            w = [e for e in r.events if e.kind == "mutate" and (outt(e.obj) or contains(e.obj, outt))]
            ok = [e for e in w if e.op == "setitem" and e.args[1] is res or e.op in ("copy_", "call:copy_")]
            cp = [e for e in r.evs("call") if e.name == "copy_"]
            ctx.put(True if ok or cp else False if not w and not contains(v, lambda y: y.op == "setitem") else None, R, "einsum: the output array is written", f.loc, "the result is not stored in out")
            for e in ok:
                if e.op == "setitem":
                    k = e.args[0]
                    ctx.put(True if k.op == "tup" and not k.a or k.op == "ellipsis" or is_const(k, ...) or k.op == "slice" and all(z is NONE for z in k.a) or is_const(k) and cval(k) is Ellipsis else None, R,
                            "einsum: the whole output array is written", e.loc, show(k))


def r_tensordot(ctx):
    R = "torch tensordot"
    op = opaque(ctx) | {"backends.torch.einsum"}
    fq = "backends.torch.tensordot"
    f = ctx.p.fn(fq)
    r = ctx.run(fq, opaque=op)
    x, y, axes = list(r.params.values())[:3]
    t = r.eng.freeze(r.ret, r.state)

    ds = f.node.args.defaults
    d = ds[-1] if ds and len(f.node.args.args) == 3 else None
    ctx.put(None if not isinstance(d, ast.Constant) or d.value is None else d.value == 2, R, "two axes are summed if none are given", f.loc, f"the default is {d.value if isinstance(d, ast.Constant) else '?'}")

    def calls(name):
        return [e for e in r.evs("call") if e.callee.op == "attr" and e.callee.a[1] == name]
    direct = [e for e in calls("tensordot")]
    for e in direct:
        kw = dict(e.kws)
        d = kw.get("dims", e.args[2] if len(e.args) > 2 else None)
        a, b = (e.args + (None, None))[:2] if isinstance(e.args, tuple) else (list(e.args) + [None, None])[:2]
        ctx.put(True if (a, b) == (x, y) else False if (a, b) == (y, x) else None, R, "operands in order", e.loc, show(e.term, 4))
        ctx.put(False if d is None or d.op == "const" or d.op == "idx" and d.a[0] is axes else True if d is axes else None, R, "the axes asked for", e.loc, show(e.term, 4))
    if not direct:
        ctx.unk(R, "torch.tensordot", f.loc, "not called")
    ein = [e for e in r.evs("call") if e.callee is mk("func", "backends.torch.einsum")]
    if not ein:
        return
    # without torch.tensordot: an equation is made
    muts = [e for e in r.events if e.kind == "mutate" and e.fq == fq]

    def side(o):
        inx, iny = contains(o, lambda u: u is x), contains(o, lambda u: u is y)
        return "x" if inx and not iny else "y" if iny and not inx else None

    # [None] * number of dimensions
    def ndim(u, z):
        return mcall(u, "ndimension") is z or mcall(u, "dim") is z or u is mk("attr", z, "ndim") or is_call(u, "builtins.len") and u.a[1][0] is mk("attr", z, "shape")
    n = "equation made by hand: "
    z = [e for e in r.evs("call") if is_call(e.term, "builtins.zip")]
    zz = next((e for e in z if any(m.loops and m.loops[-1][1] is e.term for m in muts)), None)
    if zz is None:
        ctx.unk(R, n + "contracted axes", f.loc, "no loop over pairs of axes")
        return
    pa = zz.args[0].a[0] if len(zz.args) == 1 and zz.args[0].op == "star" else mk("tup", *zz.args) if len(zz.args) == 2 else None
    if pa is not None:
        for nm, ty in (("a number", (True, False, False)), ("two lists", (False, False, False)), ("two numbers", (False, True, True)), ("a number and a list", (False, True, False)), ("a list and a number", (False, False, True))):
            def leaf(c, e):
                if c.op == "isinstance":
                    o = c.a[0]
                    if o is axes:
                        return ty[0]
                    if o.op == "phi":
                        try:
                            o = under(o, leaf)
                        except Undecided:
                            return None
                    if o is mk("idx", axes, const(0)):
                        return ty[1]
                    if o is mk("idx", axes, const(1)):
                        return ty[2]
                    if is_call(o, "builtins.range", "builtins.list") or o.op in ("tup", "lst"):
                        return False
                return None
            v = under(pa, leaf)
            if v is axes:
                got = (mk("idx", axes, const(0)), mk("idx", axes, const(1)))
            elif v.op in ("tup", "lst") and len(v.a) == 2:
                got = v.a
            else:
                ctx.unk(R, n + f"axes given as {nm}", zz.loc, show(v, 5))
                continue
            vs = []
            for i, g in enumerate(got):
                a_i = mk("idx", axes, const(i))
                if ty[0]:
                    vs.append(isrange(g, axes, lambda u: ndim(u, x), last=i == 0))
                elif ty[1 + i]:
                    vs.append(True if g.op in ("tup", "lst") and len(g.a) == 1 and g.a[0] is a_i else False if g is a_i or g.op in ("tup", "lst") else just(g, a_i))
                else:
                    vs.append(True if strip(g, *SEQ) is a_i else False if g.op in ("tup", "lst") or g.op == "idx" and g.a[0] is axes else None)
            ctx.put(False if False in vs else None if None in vs else True, R, n + f"axes given as {nm}", zz.loc, show(v, 6))
        for ax, nx, ny, want in ((2, 3, 4, ((1, 2), (0, 1))), (0, 2, 2, ((), ())), (1, 1, 2, ((0,), (0,))), (((1, 2), (0, 3)), 3, 4, ((1, 2), (0, 3))), ((1, 0), 2, 2, ((1,), (0,))),
                                 (((1,), 2), 2, 3, ((1,), (2,))), ((0, (2,)), 2, 3, ((0,), (2,))), (((), ()), 1, 2, ((), ()))):
            nm = n + f"axes={ax!r} for {nx} and {ny} dimensions"
            try:
                v = pointeval(pa, lambda u: ax if u is axes else nx if ndim(u, x) else ny if ndim(u, y) else None)
                ctx.put(v == want, R, nm, zz.loc, f"the axes are {v!r}")
            except Fails as ex:
                ctx.bad(R, nm, zz.loc, "fails: " + str(ex))
            except Undecided as ex:
                ctx.unk(R, nm, zz.loc, str(ex))
    else:
        ctx.unk(R, n + "axes", zz.loc, show(zz.term, 4))
    # the pairs get one symbol each
    pair = [m for m in muts if m.op == "setitem" and m.loops and m.loops[-1][1] is zz.term]
    el = mk("elem", zz.term, 0)
    got = {}
    for m in pair:
        s = side(m.obj)
        k = m.args[0]
        which = next((i for i in (0, 1) if k is mk("idx", el, const(i)) or len(zz.args) == 2 and k.op == "elem" and k.a[0] is zz.args[i]), None)
        if s is None or which is None:
            ctx.unk(R, n + "contracted axes", m.loc, show(k, 4))
            return
        ctx.put(which == ("x", "y").index(s), R, n + f"axes of {s} mark {s}", m.loc, f"axes of the other operand mark {s}")
        got[s] = m.args[1]
    ctx.put(len(got) == 2 and got.get("x") is got.get("y") and got["x"].op == "next" if len(got) == 2 else False, R, n + "contracted axes share a symbol", zz.loc, "the operands get different symbols, or one of them none")
    # the rest
    order = []
    for s, o in (("x", x), ("y", y)):
        rest = [m for m in muts if m.op == "setitem" and m not in pair and side(m.obj) == s and m.loops]
        if len(rest) != 1:
            ctx.unk(R, n + f"axes left of {s}", f.loc, f"{len(rest)} places")
            return
        m = rest[0]
        it = m.loops[-1][1]
        full = is_call(it, "builtins.range") and len(it.a[1]) == 1 and ndim(it.a[1][0], o)
        if is_call(it, "builtins.range") and len(it.a[1]) == 1 and ndim(it.a[1][0], y if o is x else x):
            full = False
        elif not full:
            full = None
        ctx.put(full, R, n + f"all axes of {s} are labelled", m.loc, show(it, 4))
        ctx.put(True if m.args[0] is mk("elem", it, 0) else None, R, n + f"each axis of {s} gets its label", m.loc, show(m.args[0], 4))
        fresh = m.args[1].op == "next" and m.args[1] is not got.get("x")
        ctx.put(True if fresh else None, R, n + f"axes left of {s} get new symbols", m.loc, show(m.args[1], 4))
        lits = [c for c in m.facts if contains(c, lambda u: u.op == "idx" and u.a[1] is mk("elem", it, 0))]

        def leaf(isnone):
            def g(c, e):
                if c.op == "cmp" and c.a[0] in ("is", "eq") and c.a[2] is NONE:
                    return isnone
                return None
            return g
        try:
            if not lits and m.args[0] is not mk("elem", it, 0):
                lits = [c for c in m.facts if contains(c, lambda u: u.op == "cmp" and u.a[2] is NONE)]
                if not lits:
                    raise Undecided("test of the label")
            ok = bool(lits) and all(truth_of(c, None, leaf(True)) for c in lits) and not all(truth_of(c, None, leaf(False)) for c in lits)
            ctx.put(ok, R, n + f"contracted axes of {s} keep their symbol", m.loc, "labels are overwritten" if not lits else show(lits[0], 4))
        except Undecided as u:
            ctx.unk(R, n + f"contracted axes of {s} keep their symbol", m.loc, str(u))
        ap = [q for q in muts if q.op == "append" and q.loops and q.loops[-1][0] == m.loops[-1][0]]
        ctx.put(True if len(ap) == 1 and ap[0].args[0] is m.args[1] else False if m.args[0] is mk("elem", it, 0) else None, R, n + f"axes left of {s} are kept in the result", m.loc, "the label of an axis left is not put into the output")
        if ap:
            order.append((ap[0].n, s))
    ctx.put([s for _, s in sorted(order)] == ["x", "y"], R, n + "axes of the result in order", f.loc, "the axes of y come before those of x")
    for e in ein:
        plain = not any(a.op == "star" for a in e.args)
        ctx.put(True if list(e.args[1:]) == [x, y] else False if plain and set(e.args[1:]) <= {x, y} else None, R, n + "operands in order", e.loc, show(e.term, 3))
        s = e.args[0]
        mm = [q for q in subterms(s) if q.op == "tup" and len(q.a) == 3] or [s]
        sides = [objside(q, x, y) for q in mm[0].a] if mm[0].op == "tup" else None
        ctx.put(True if sides == ["x", "y", "out"] else None if not sides or None in sides else False, R, n + "parts of the equation", e.loc, f"made of {sides}")
        fmt = [cval(q) for q in subterms(s) if is_const(q) and isinstance(cval(q), str) and "->" in cval(q)]
        if fmt:
            ctx.put(fmt[0] in ("{},{}->{}", "->") or None, R, n + "format", e.loc, fmt[0])


def objside(t, x, y):
    """which label list a finished list is: by what it was initialised with"""
    inx, iny = contains(t, lambda u: u is x), contains(t, lambda u: u is y)
    if contains(t, lambda u: u.op == "append"):
        return "out" if not contains(t, lambda u: u.op == "setitem" and False) and t.op == "out" and contains(t.a[-1], lambda u: u.op == "append") else None
    if contains(t, lambda u: u.op == "setitem"):
        key = [u for u in subterms(t) if u.op == "setitem"]
        k = key[0].a[1]
        if contains(k, lambda u: u is x) and not contains(k, lambda u: u is y):
            return "x"
        if contains(k, lambda u: u is y) and not contains(k, lambda u: u is x):
            return "y"
    return None


def just(g, k):
    """the numbers of a range are k alone"""
    if not is_call(g, "builtins.range") or g.a[2]:
        return None
    try:
        return all(list(range(*[int(numeval(u, lambda w: v if w is k else None)) for u in g.a[1]])) == [v] for v in (1, 2, 5))
    except (Undecided, TypeError, ValueError):
        return None


def isrange(g, k, isnd, last):
    """range(nd - k, nd) (last) or range(k)"""
    if not is_call(g, "builtins.range") or g.a[2]:
        return None
    a = g.a[1]
    lo, hi = (const(0), a[0]) if len(a) == 1 else a[:2]
    if len(a) > 2:
        return None
    try:
        for nd, kk in ((3, 2), (4, 1), (5, 5), (2, 0)):
            def val(u):
                return kk if u is k else nd if isnd(u) else None
            if (numeval(lo, val), numeval(hi, val)) != ((nd - kk, nd) if last else (0, kk)):
                return False
        return True
    except Undecided:
        return None


# ---------------------------------------------------------------- arrays of objects
OBJ = "backends.object_arrays.object_einsum"


def r_objects(ctx):
    R = "arrays of objects"
    f = ctx.p.fn(OBJ)
    r = ctx.run(OBJ, public=True)
    eq, arrays = list(r.params.values())[:2]
    sp = mk("call", mk("attr", eq, "split"), (const("->"),), ())
    lhs, out = mk("idx", sp, const(0)), mk("idx", sp, const(1))
    inputs = mk("call", mk("attr", lhs, "split"), (const(","),), ())

    def fit(t, w):
        return strip(t, *SEQ) is w
    muts = [e for e in r.events if e.kind == "mutate" and e.op == "setitem" and e.fq == OBJ]
    sz = [e for e in muts if e.loops and len(e.loops) == 2]
    if len(sz) != 1:
        raise Undecided("sizes of the indices")
    e = sz[0]
    z1, z2 = e.loops[0][1], e.loops[1][1]
    ok = is_call(z1, "builtins.zip") and len(z1.a[1]) == 2 and fit(z1.a[1][0], inputs) and fit(z1.a[1][1], arrays)
    part = is_call(z1, "builtins.zip") and any(seqv(u, inputs, arrays) is False for u in z1.a[1])
    ctx.put(True if ok else False if part else None, R, "sizes come from every operand", e.loc, show(z1, 5))
    shape = next((u for u in subterms(z2) if u.op == "attr" and u.a[1] == "shape"), None)
    d = e.args[1]
    ctx.put(True if shape is not None and contains(d, lambda u: u is shape) and d.op == "elem" else None, R, "the size of an index is the length of its dimension", e.loc, show(d, 5))
    facts = [c for c in e.facts]

    # the sizes agree except for 1, which is stretched
    dim = next((u for u in subterms(d) if u.op == "elem" and shape is not None and u.a[0] is shape), d)

    def val(old, new):
        def g(u):
            if u.op == "get" and u.a[1] is e.args[0] and contains(u.a[0], lambda w: w.op == "mu"):
                return old if old is not None else (cval(u.a[2]) if u.a[2].op == "const" else None)
            if u.op == "idx" and u.a[1] is e.args[0] and contains(u.a[0], lambda w: w.op == "mu"):
                return old
            return new if u is dim else None
        return g

    def leaf(old, new):
        def more(c, env):
            if c.op == "cmp" and c.a[0] == "in" and c.a[1] is e.args[0]:
                return old is not None
            return None
        return numleaf(val(old, new), more)
    try:
        for old, new in ((None, 3), (None, 1), (1, 3), (3, 1), (2, 1), (4, 4), (1, 1)):
            if all(truth_of(c, None, leaf(old, new)) for c in facts):
                got = new if d is dim else numeval(pick(d, leaf(old, new)), val(old, new))
            else:
                got = old
            want_ = new if old in (None, 1) else old
            ctx.put(got == want_, R, f"size {new} after {old if old is not None else 'none'}", e.loc, f"the index has size {got} instead of {want_}")
    except Undecided as u:
        ctx.unk(R, "dimensions of size 1 are stretched", e.loc, str(u))
    # result array
    mk_ = [c for c in r.evs("call") if c.callee.op == "ext" and c.callee.a[0] in ("numpy.empty", "numpy.zeros", "numpy.full")]
    sizes = e.obj
    if not mk_:
        raise Undecided("no result array")
    c = mk_[0]
    s = strip(c.args[0], *SEQ)
    bysize(ctx, R, "shape of the result", c.loc, s, out)
    dt = dict(c.kws).get("dtype", c.args[1] if len(c.args) > 1 else None)
    ctx.put(False if dt is None else True if dt.op == "ext" and dt.a[0].endswith("object") else None, R, "the result holds objects", c.loc, "no dtype")
    st = [q for q in muts if q.obj is c.term or contains(q.obj, lambda u: u is c.term)]
    if len(st) != 1 or not st[0].loops:
        raise Undecided("result is stored in several places")
    q = st[0]
    it = q.loops[-1][1]
    ok = it.op == "call" and it.a[0].op in ("ext", "attr") and str(it.a[0].a[-1]).endswith("ndindex")
    ctx.put(True if ok and q.args[0] is mk("elem", it, 0) else None, R, "every element of the result", q.loc, show(it, 4))
    if ok:
        bysize(ctx, R, "range of the result", q.loc, strip(it.a[1][0].a[0] if it.a[1][0].op == "star" else it.a[1][0], *SEQ), out)
    v = q.args[1]
    if v.op != "fold":
        raise Undecided("sum " + show(v, 4))
    ctx.put(v.a[0] == "+", R, "products are added", q.loc, f"combined with {v.a[0]}")
    ctx.put(True if v.a[1] is NONE else None, R, "the sum starts with a product", q.loc, show(v.a[1]))
    g = v.a[3]
    if not (g.op == "call" and g.a[0].op == "clos"):
        raise Undecided("inner sum " + show(g, 4))
    gf = r.eng.closures[g.a[0]].fn
    gr = ctx.run(gf.fq)
    outer = {k[-1]: r.eng.freeze(vv, r.state) for k, vv in r.state.vars.items() if isinstance(k, tuple) and k[0] == r.frame.id}
    ys = list(gr.evs("yield"))
    if len(ys) != 1:
        raise Undecided("products")
    y = ys[0]

    def val_of(t):
        """a free variable of the generator in the outer function"""
        if t.op == "free" or t.op == "param":
            return outer.get(t.a[-1], t)
        return t
    it2 = y.loops[-1][1] if y.loops else None
    if it2 is None:
        raise Undecided("inner loop")
    ok = it2.op == "call" and it2.a[0].op in ("ext", "attr") and str(it2.a[0].a[-1]).endswith("ndindex")
    ctx.put(True if ok else None, R, "every combination of the summed indices", y.loc, show(it2, 4))
    ctx.put(not [c for c in y.facts] or None, R, "no combination is left out", y.loc, "")
    isz = strip(val_of(it2.a[1][0].a[0] if it2.a[1][0].op == "star" else it2.a[1][0]), *SEQ) if ok else None
    up = [m for m in gr.events if m.kind == "mutate" and m.op == "update"]
    if len(up) != 1 or not is_call(up[0].args[0], "builtins.zip"):
        raise Undecided("coordinates")
    names, vals = up[0].args[0].a[1][:2]
    pv = [seqv(names, mk_free(names)), seqv(vals, mk("elem", it2, 0))]
    ctx.put(True if pv[1] and pv[0] is not False else False if False in pv and True in pv else None, R, "coordinates of the summed indices", up[0].loc, show(up[0].args[0], 4))
    ctx.put(up[0].n < y.n and up[0].loops and up[0].loops[-1][0] == y.loops[-1][0], R, "coordinates are set before use", up[0].loc, "")
    inner = strip(val_of(mk_free(names)), *SEQ)
    if isz is not None:
        bysize(ctx, R, "range of the sum", y.loc, isz, inner if inner.op != "comp" else inner, alt=val_of(names))
    # summed: those not in the output
    if inner.op == "comp":
        el = mk("elem", inner.a[2][0], 0)

        def leaf2(inout):
            def h(cc, en):
                if cc.op == "cmp" and cc.a[0] == "in" and cc.a[1] is el and cc.a[2] is out:
                    return inout
                return None
            return h
        try:
            a = truth_of(inner.a[3], None, leaf2(False)) and not truth_of(inner.a[3], None, leaf2(True))
            ctx.put(a, R, "summed indices are those not in the output", y.loc, show(inner.a[3], 5))
        except Undecided as u:
            ctx.unk(R, "summed indices are those not in the output", y.loc, str(u))
    else:
        ctx.unk(R, "summed indices are those not in the output", y.loc, show(inner, 4))
    # coordinates of the output
    co = next((c for c in r.evs("call") if is_call(c.term, "builtins.zip") and c.loops and c.loops[-1][0] == q.loops[-1][0]), None)
    if co is not None:
        a, b = co.args[:2]
        ctx.put(True if fit(a, out) and b is q.args[0] else False if seqv(a, out) is False and seqv(b, q.args[0]) else None, R, "coordinates of the output", co.loc, show(co.term, 4))
    # product
    p = y.value
    if p.op != "fold":
        raise Undecided("product " + show(p, 4))
    ctx.put(p.a[0] == "*", R, "elements are multiplied", y.loc, f"combined with {p.a[0]}")
    G = p.a[3]
    if G.op != "comp" or len(G.a[2]) != 1:
        raise Undecided("elements " + show(G, 4))
    ctx.put(G.a[3] is TRUE or False, R, "one element of every operand", y.loc, "operands are left out: " + show(G.a[3], 4))
    z = G.a[2][0]
    el = G.a[1]
    if el.op != "idx" or not is_call(z, "builtins.zip"):
        raise Undecided("element " + show(el, 4))
    src = [strip(val_of(u), *SEQ) for u in z.a[1]]
    ctx.put(True if arrays in src else False if any(seqv(u, *[w for w in subterms(u) if val_of(w) is arrays]) is False for u in z.a[1]) else None, R, "elements of the operands", y.loc, show(z, 4))
    k = el.a[1]
    if k.op == "comp" and k.a[0] == "tuple":
        dims = k.a[1]
        sh = next((u for u in subterms(dims) if u.op == "elem" and u.a[0].op == "attr" and u.a[0].a[1] == "shape"), None)

        def coordv(t):
            t = t
            return t.op == "idx" and contains(t.a[0], lambda u: u.op == "updated" or u.op == "mu")
        if sh is None:
            ctx.put(False if coordv(dims) else None, R, "dimensions of size 1 are read at 0", y.loc, "a stretched dimension is read beyond its end")
        else:
            for size in (1, 2, 5):
                try:
                    v = pick(dims, numleaf(lambda u: size if u is sh else None))
                except Undecided as u:
                    ctx.unk(R, f"coordinate in a dimension of size {size}", y.loc, str(u))
                    continue
                good = is_const(v, 0) if size == 1 else coordv(v)
                ctx.put(True if good else False if size == 1 and coordv(v) or size > 1 and v.op == "const" else None, R, f"coordinate in a dimension of size {size}", y.loc, show(v, 4))
    else:
        ctx.unk(R, "coordinates of an element", y.loc, show(k, 4))


def mk_free(t):
    """the variable a (reordered) sequence is made of"""
    while t.op == "idx" and t.a[1].op == "slice" or t.op == "call" and len(t.a[1]) == 1:
        t = t.a[0] if t.op == "idx" else t.a[1][0]
    return t


def bysize(ctx, R, nm, loc, s, idx, alt=None):
    """sizes[k] for k in idx"""
    if s.op == "idx" and s.a[1].op == "slice" and s.a[0].op == "comp" or is_call(s, "builtins.reversed", "builtins.sorted") and s.a[1][0].op == "comp":
        ctx.bad(R, nm, loc, "sizes out of order: " + show(s, 4))
        return
    if s.op != "comp" or len(s.a[2]) != 1:
        ctx.unk(R, nm, loc, show(s, 4))
        return
    it = strip(s.a[2][0], *SEQ)
    el = mk("elem", s.a[2][0], 0)
    good = it is idx or alt is not None and it is strip(alt, *SEQ)
    body = s.a[1].op == "idx" and (s.a[1].a[1] is el or it.op == "comp" and s.a[1].a[1] is it.a[1]) and s.a[1].a[0].op == "out"
    v = True if good else seqv(it, idx, *([strip(alt, *SEQ)] if alt is not None else []))
    if v is None and (idx.op == "idx" and it.op == "comp" or idx.op == "comp" and it.op == "idx"):
        v = False       # the other group of indices
    ctx.put(v if v is not True or body and s.a[3] is TRUE else None, R, nm, loc, show(s, 4))


CE = "contract.ContractExpression."


def r_call(ctx):
    """when an expression converts, and what it hands to the library"""
    R = "when an expression converts"
    fq = CE + "__call__"
    for n in ("__call__", "_contract", "_contract_with_conversion"):
        if CE + n not in ctx.p.fns:
            ctx.unk(R, n, "", "not in the source")
            return
    op = frozenset({CE + "_contract", CE + "_contract_with_conversion", CE + "_get_evaluated_constants", D + "has_backend", "contract.parse_backend", "contract.infer_backend"})
    r = ctx.run(fq, public=True, opaque=op)
    arrays = r.params["arrays"]
    conv = [e for e in r.events if e.kind == "call" and e.callee.op == "func" and e.callee.a[0] == CE + "_contract_with_conversion"]
    core = [e for e in r.events if e.kind == "call" and e.callee.op == "func" and e.callee.a[0] == CE + "_contract"]
    if not conv or not core:
        raise Undecided("calls of the two ways not found")
    for has, kinds, want, why in ((True, ("numpy", "numpy"), True, "numpy arrays, a library that converts"), (True, ("numpy", "other"), False, "the last array is not numpy's"),
                                  (True, ("other", "numpy"), False, "the first array is not numpy's"), (True, ("other", "other"), False, "arrays of the library itself"),
                                  (True, ("other",), False, "one array of the library itself"), (False, ("numpy", "numpy"), False, "numpy arrays, a library that does not convert")):
        def val(u):
            if u is arrays:
                return kinds
            if is_call(u, D + "has_backend"):
                return has
            return None

        def reach(e):
            """True/False/None"""
            unk = False
            for f in e.facts:
                try:
                    if not pointeval(f, val, fns={"contract.infer_backend": lambda x: x}):
                        return False
                except Undecided:
                    if contains(f, lambda u: is_call(u, "contract.infer_backend", D + "has_backend")):
                        unk = True
            return None if unk else True
        a, b = [reach(e) for e in conv], [reach(e) for e in core]
        got = True if any(x is True for x in a) and all(x is False for x in b) else False if all(x is False for x in a) and any(x is True for x in b) else None
        ctx.put(None if got is None else got == want, R, why, conv[0].loc, f"{why}: the operands are {'converted' if got else 'not converted'}")
    ev0, out0 = r.params.get("evaluate_constants"), r.params.get("out")
    for e in conv + core:
        fn = ctx.p.fns[e.callee.a[0]]
        nm = e.callee.a[0].split(".")[-1]
        star = any(a.op == "star" for a in e.args) or any(k is None for k, _ in e.kws)
        for pn, want in (("evaluate_constants", ev0), ("out", out0)):
            v = call_arg(e, fn, pn, has_self=True)
            if want is None or pn not in fn.params():
                continue
            ctx.put(True if v is want else None if star or v is not None and v.op != "const" else False, R, f"{nm} is told {pn}", e.loc, f"{pn} is " + (show(v, 3) if v is not None else "not passed on"))
        v = call_arg(e, fn, "backend", has_self=True)
        ctx.put(True if v is not None and is_call(v, "contract.parse_backend") else None if star or v is not None and v.op != "const" else False, R, f"{nm} is told the library", e.loc,
                "backend is " + (show(v, 3) if v is not None else "not passed on"))
    R = "conversion in expressions"
    fq = CE + "_contract_with_conversion"
    fn = ctx.p.fn(fq)
    r = ctx.run(fq, public=True, opaque=frozenset({D + "evaluate_constants", D + "build_expression", CE + "_get_backend_expression"}))
    arr, bk, ev, me = (r.params.get(n) for n in ("arrays", "backend", "evaluate_constants", "self"))
    if None in (arr, bk, ev):
        raise Undecided("parameters of the converting call")
    for name, params in ((D + "evaluate_constants", (("backend", bk), ("arrays", arr), ("expr", me))), (D + "build_expression", (("backend", bk), ("arrays", arr), ("expr", me))),
                         (CE + "_get_backend_expression", (("arrays", arr), ("backend", bk)))):
        for e in r.events:
            if e.kind != "call" or e.callee.op != "func" or e.callee.a[0] != name:
                continue
            for pn, want in params:
                v = call_arg(e, ctx.p.fns[name], pn, has_self=name.startswith(CE))
                v = strip(v, "builtins.tuple", "builtins.list") if v is not None else None
                ctx.put(True if v is want else None if v is None or v not in set(r.params.values()) and v is not me else False, R, f"{name.split('.')[-1]} is given {pn}", e.loc,
                        "it is given " + (show(v, 3) if v is not None else "nothing"))
            tr = None
            try:
                tr = [all(truth_of(f, None, lambda c, env, x=x: x if c is ev else None) for f in e.facts if contains(f, ev)) for x in (True, False)]
            except Undecided:
                pass
            want = [True, False] if name.endswith("evaluate_constants") else [False, True]
            ctx.put(None if tr is None else tr == want, R, f"{name.split('.')[-1]} only when {'' if want[0] else 'not '}evaluating constants", e.loc, "condition: " + "; ".join(show(f, 3) for f in e.facts))
    g = ctx.run(CE + "_get_backend_expression", public=True, opaque=frozenset({D + "build_expression"})) if CE + "_get_backend_expression" in ctx.p.fns else None
    for e in g.events if g else ():
        if e.kind == "call" and e.callee.op == "func" and e.callee.a[0] == D + "build_expression":
            for pn, want in (("backend", g.params.get("backend")), ("arrays", g.params.get("arrays")), ("expr", g.params.get("self"))):
                v = call_arg(e, ctx.p.fns[D + "build_expression"], pn)
                v = strip(v, "builtins.tuple", "builtins.list") if v is not None else None
                ctx.put(True if v is want and v is not None else None if v is None or want is None or v not in set(g.params.values()) else False, R, f"build_expression is given {pn}", e.loc,
                        "it is given " + (show(v, 3) if v is not None else "nothing"))


def r_auto(ctx):
    """the library used if none is named"""
    R = "library of the arrays"
    fq = "contract.parse_backend"
    for q in (fq, "contract.infer_backend", "contract.contract", "contract._core_contract"):
        if q not in ctx.p.fns:
            ctx.unk(R, q, "", "not in the source")
            return
    f = ctx.p.fn(fq)
    r = ctx.run(fq, public=True, opaque=frozenset({"contract.infer_backend", D + "has_tensordot"}))
    t = r.eng.freeze(r.ret, r.state)
    arrays, b = r.params["arrays"], r.params["backend"]
    for bk, has, want in ((None, True, "lib of A"), ("auto", True, "lib of A"), ("auto", False, "numpy"), ("torch", True, "torch"), ("torch", False, "torch"), ("numpy", True, "numpy")):
        def val(u):
            return ("A", "B") if u is arrays else bk if u is b and bk is not None else None

        def leaf(c, env):
            if bk is None and c.op == "cmp" and c.a[1] is b and c.a[0] in ("is", "eq"):
                return c.a[2] is NONE
            if bk is None and c.op == "cmp" and c.a[1] is b and c.a[0] == "in" and c.a[2].op in ("tup", "lst", "set"):
                return NONE in c.a[2].a
            return None
        nm = f"backend={bk!r}, {'a library with tensordot' if has else 'no tensordot'}"
        try:
            v = pointeval(t, val, leaf, fns={"contract.infer_backend": lambda x: "lib of " + x, D + "has_tensordot": lambda x: has})
            ctx.put(v == want, R, nm, f.loc, f"it is {v!r} instead of {want!r}")
        except Fails as ex:
            ctx.bad(R, nm, f.loc, "fails: " + str(ex))
        except Undecided as ex:
            ctx.unk(R, nm, f.loc, str(ex))
    # a library is known by the first part of its module's name
    q = ctx.run("contract.infer_backend", public=True)
    t = q.eng.freeze(q.ret, q.state)
    for mod, want in (("numpy", "numpy"), ("cupy._core.core", "cupy"), ("jax.interpreters.xla", "jax"), ("builtins", "builtins")):
        try:
            v = pointeval(t, lambda u: mod if u.op == "attr" and u.a[1] == "__module__" else None)
            ctx.put(v == want, R, f"arrays of {mod}", ctx.p.fn("contract.infer_backend").loc, f"belong to {v!r}")
        except Fails as ex:
            ctx.bad(R, f"arrays of {mod}", ctx.p.fn("contract.infer_backend").loc, "fails: " + str(ex))
        except Undecided as ex:
            ctx.unk(R, f"arrays of {mod}", ctx.p.fn("contract.infer_backend").loc, str(ex))
    # the arrays looked at
    r = ctx.run("contract.contract", public=True, opaque=frozenset({"contract.contract_path", "contract._core_contract", "contract.ContractExpression", "contract._einsum", fq}))
    sub, ops = r.params["subscripts"], r.params["operands"]
    for e in r.events:
        if e.kind == "call" and e.callee.op == "func" and e.callee.a[0] == fq:
            a = call_arg(e, f, "arrays")
            for eq in (True, False):
                nm = "contract without optimization, " + ("equation first" if eq else "operands and index lists")
                if a is None:
                    ctx.unk(R, nm, e.loc, "no arrays")
                    continue
                try:
                    v = pointeval(a, lambda u: "S" if u is sub else ("A", "B") if u is ops else None, lambda c, env: eq if c.op == "isinstance" and c.a[0] is sub else None)
                    if isinstance(v, tuple):
                        ctx.put(bool(v) and v[0] == ("A" if eq else "S"), R, nm, e.loc, f"the library is that of {'the equation' if eq and v and v[0] == 'S' else 'another argument'}")
                    else:
                        ctx.unk(R, nm, e.loc, show(a, 4))
                except (Undecided, Fails) as ex:
                    ctx.unk(R, nm, e.loc, str(ex))
    r = ctx.run("contract._core_contract", opaque=frozenset({"contract._einsum", "contract._tensordot", "contract._transpose", fq, D + "has_einsum"}))
    p0 = list(r.params.values())[0]
    for e in r.events:
        if e.kind == "call" and e.callee.op == "func" and e.callee.a[0] == fq:
            a = call_arg(e, f, "arrays")
            v = strip(r.eng.freeze(a, r.state), *SEQ) if a is not None else None
            ctx.put(True if a is not None and (strip(a, *SEQ) is p0 or v is p0) else None, R, "contraction steps", e.loc, show(a, 4) if a is not None else "no arrays")


def check(ctx):
    for fq in (D + "build_expression", D + "evaluate_constants", D + "get_func", OBJ, "backends.torch.einsum", "backends.torch.tensordot", "backends.torch.transpose"):
        if fq not in ctx.p.fns:
            raise AnalysisBroken(f"public function {fq} is missing")
    ctx.rule("tables", r_tables)
    ctx.rule("compiled functions", r_build)
    ctx.rule("evaluation of constants", r_consts)
    ctx.rule("conversions", r_conv)
    ctx.rule("libraries", r_homes)
    ctx.rule("torch functions", r_torch)
    ctx.rule("torch tensordot", r_tensordot)
    ctx.rule("arrays of objects", r_objects)
    ctx.rule("expressions", r_call)
    ctx.rule("library of the arrays", r_auto)
