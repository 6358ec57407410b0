"""C13: the path information describes the path that is executed."""
import ast

from sa.engine import is_call, mcall
from sa.kit import Undecided, numeval, numleaf, show, strip, truth_of
from sa.terms import NONE, TRUE, const, contains, cval, is_const, mk, subterms
from .common import cases

DESC = ("Must-flow analysis: each number and text of the path information is traced to its definition. Per-step lists are read as (loop over the returned path, value appended per step); the value must be "
        "the operation count, the number of indices or the size of the result of that very step; totals are the sum or maximum of those lists; the object's fields and the printed lines show the field they name.")
OP = frozenset({"parser.parse_einsum_input", "parser.get_shape", "helpers.flop_count", "helpers.compute_size_by_dict", "helpers.find_contraction", "blas.can_blas", "parser.find_output_shape",
                "paths.get_path_fn", "contract._choose_memory_arg", "contract.PathInfo"})
FQ = "contract.contract_path"


def targ(ctx, t, name):
    """argument `name` of a call term of a function of the package"""
    fq = t.a[0].a[0]
    ps = ctx.p.fn(fq).params()
    for k, v in t.a[2]:
        if k == name:
            return v
    i = ps.index(name)
    if i < len(t.a[1]) and not any(x.op == "star" for x in t.a[1][:i + 1]):
        return t.a[1][i]
    raise Undecided(f"argument {name} of {show(t, 3)}")


def unesc(t):
    while t.op in ("esc", "frozen"):
        t = t.a[0]
    return t


def per_step(r, t):
    """(loop, value appended in each step) of a list filled in a loop, else None"""
    t = strip(unesc(t), "builtins.list", "builtins.tuple")
    if t.op == "out":
        lp = r.eng.loops.get(t.a[0])
        m = next((m for m, s in lp.step.items() if s is t.a[2]), None) if lp is not None else None
        if m is None:
            return None
        ini = r.eng.freeze(lp.init[m], r.state)
        if ini.op != "lst" or ini.a:
            return (lp, None, ini) if ini.op in ("lst", "comp") else None
        st = t.a[2]
        if st.op == "append" and st.a[0] is m:
            return lp, st.a[1], None
        if st.op == "add" and len(st.a) == 2 and st.a[0] is m and st.a[1].op == "lst" and len(st.a[1].a) == 1:
            return lp, st.a[1].a[0], None
        alts = [v for _, v in cases(st)]
        if m in alts and any(v.op == "append" and v.a[0] is m for v in alts):
            return lp, False, None
    if t.op == "comp" and len(t.a[2]) == 1 and t.a[3] is TRUE:
        return t.a[2][0], t.a[1], None
    return None


def fcpart(t):
    """(number of the part of find_contraction's result, call) or None"""
    if t.op == "idx" and t.a[1].op == "const" and is_call(t.a[0], "helpers.find_contraction"):
        return cval(t.a[1]) % 4, t.a[0]
    return None


PARTS = {0: "the indices of the result", 1: "the remaining terms", 2: "the summed indices", 3: "all indices of the step"}


def want_part(ctx, R, name, loc, t, n):
    t = strip(t)
    p = fcpart(t)
    if p is None:
        if n == 3 and t.op in ("union", "bin") and {fcpart(strip(x))[0] for x in (t.a if t.op == "union" else t.a[1:]) if fcpart(strip(x))} == {0, 2}:
            ctx.ok(R, name, loc)
            return
        ctx.put(None, R, name, loc, show(t, 4))
    else:
        ctx.put(p[0] == n, R, name, loc, f"uses {PARTS[p[0]]} instead of {PARTS[n]}")


def info_args(ctx, r):
    fn = ctx.p.fn("contract.PathInfo.__init__")
    ps = fn.params()[1:]
    calls = [e for e in r.events if e.kind == "call" and e.callee.op == "class" and e.callee.a[0] == "contract.PathInfo"]
    if len(calls) != 1:
        raise Undecided(f"{len(calls)} constructions of PathInfo")
    e = calls[0]
    d = dict(zip(ps, e.args))
    d.update(dict(e.kws))
    return e, {k: r.eng.freeze(v, r.state) for k, v in d.items()}, ps


def roots(t):
    """the objects a gated value can be"""
    return {unesc(v) for _, v in cases(t)} if t.op == "phi" else {unesc(t)}


def r_numbers(ctx):
    R = "numbers"
    r = ctx.run(FQ, public=True, opaque=OP)
    e, A, ps = info_args(ctx, r)
    loc = e.loc
    need = {"contraction_list", "path", "scale_list", "naive_cost", "opt_cost", "size_list", "size_dict", "indices", "input_subscripts", "output_subscript"}
    if not need <= set(A):
        raise Undecided("parameters of PathInfo")
    sizes = roots(A["size_dict"])

    def same_sizes(name, t):
        rt = roots(t)
        ctx.put(True if rt & sizes or any(contains(x, y) for x in sizes for y in rt) else None, R, name + " uses the sizes of this contraction", loc, show(t, 3))
    rets = [x for x in r.events if x.kind == "return" and x.fq == FQ]
    tup = [x for x in rets if x.value.op == "tup" and len(x.value.a) == 2]
    for x in tup:
        a, b = x.value.a
        if b.op == "call" and b.a[0].op == "class":
            ctx.put(True if a is A["path"] else None if roots(a) & roots(A["path"]) or a.op == "comp" else False, R, "the path returned is the path described", x.loc, f"returns {show(a, 3)}")
        elif b.op == "out" or b.op == "comp":
            ctx.put(True if b is A["contraction_list"] else None, R, "the steps handed to the executor are the steps described", x.loc, show(b, 3))
    # loop over the path
    step_loops = set()

    def loop_ok(name, lp):
        it = lp if not hasattr(lp, "iter") else lp.iter
        while is_call(it, "builtins.enumerate", "builtins.list", "builtins.tuple", "builtins.iter"):
            it = it.a[1][0]
        if it.op == "idx" and it.a[1].op == "slice" and it.a[0] is A["path"]:
            ctx.bad(R, name + " has one entry per step", loc, "only part of the path: " + show(it, 3))
            return
        ctx.put(True if it is A["path"] else None, R, name + " has one entry per step", loc, "filled over " + show(it, 3))
    for name in ("contraction_list", "scale_list", "size_list"):
        p = per_step(r, A[name])
        if p is None:
            ctx.unk(R, name, loc, show(A[name], 4))
            continue
        lp, v, ini = p
        if ini is not None or v is False:
            ctx.bad(R, name + " has one entry per step", loc, "starts with " + show(ini, 3) if ini is not None else "some steps leave no entry")
            continue
        loop_ok(name, lp)
        if name == "scale_list":
            if is_call(v, "builtins.len") and len(v.a[1]) == 1:
                want_part(ctx, R, "the scaling of a step is the number of its indices", loc, v.a[1][0], 3)
            else:
                ctx.unk(R, "the scaling of a step is the number of its indices", loc, show(v, 4))
        if name == "size_list":
            if is_call(v, "helpers.compute_size_by_dict"):
                want_part(ctx, R, "the size of a step is that of its result", loc, targ(ctx, v, "indices"), 0)
                same_sizes("the size of a step", targ(ctx, v, "idx_dict"))
            else:
                ctx.unk(R, "the size of a step is that of its result", loc, show(v, 4))
    # total
    t = unesc(A["opt_cost"])
    v = None
    if is_call(t, "builtins.sum", "math.fsum") and t.a[1]:
        p = per_step(r, t.a[1][0])
        if p is not None and p[2] is None and p[1] is not False:
            lp, v = p[:2]
            loop_ok("the cost", lp)
        elif p is not None or t.a[1][0].op == "idx" and t.a[1][0].a[1].op == "slice" and per_step(r, t.a[1][0].a[0]) is not None and t.a[1][0].a[1] is not mk("slice", NONE, NONE, NONE):
            ctx.bad(R, "the cost has one entry per step", loc, "the list of costs is incomplete or starts with other entries")
    elif t.op == "out":
        lp = r.eng.loops.get(t.a[0])
        m = next((m for m, s in lp.step.items() if s is t.a[2]), None)
        if m is not None:
            st = t.a[2]
            if st.op == "add" and m in st.a and len(st.a) == 2:
                v = st.a[1] if st.a[0] is m else st.a[0]
                ctx.put(is_const(lp.init[m], 0), R, "the cost starts from nothing", loc, "starts from " + show(lp.init[m]))
                loop_ok("the cost", lp)
            elif is_call(st, "builtins.max"):
                ctx.bad(R, "the cost of the path is the sum over its steps", loc, show(st, 3))
    elif is_call(t, "builtins.max", "builtins.min", "builtins.len"):
        ctx.bad(R, "the cost of the path is the sum over its steps", loc, show(t, 3))
    elif t.op == "fold" and t.a[0] in ("+", "add"):
        v = t.a[2]
    if v is None:
        ctx.unk(R, "the cost of the path is the sum over its steps", loc, show(t, 4))
    else:
        cost(ctx, R, "the cost of a step", loc, v, same_sizes, 3)
    # naive cost
    n = unesc(A["naive_cost"])
    if is_call(n, "helpers.flop_count"):
        ic = targ(ctx, n, "idx_contraction")
        only_out = strip(ic).op == "idx" and is_call(strip(ic).a[0], "parser.parse_einsum_input") and is_const(strip(ic).a[1], 1)
        ctx.put(True if ic is A["indices"] else False if only_out else None, R, "the naive cost is over all indices", loc, show(targ(ctx, n, "idx_contraction"), 4))
        same_sizes("the naive cost", targ(ctx, n, "size_dictionary"))
        k = targ(ctx, n, "num_terms")
        if k.op == "const":
            ctx.bad(R, "the naive cost is over all terms at once", loc, show(k))
        else:
            counts(ctx, R, "the naive cost is over all terms at once", loc, k, lambda y: any(is_call(u, "parser.parse_einsum_input") for u in subterms(y)) and y is not A["indices"])
        inner = targ(ctx, n, "inner")
        for s, d in ((5, 5), (7, 5)):
            def val(t, s=s, d=d):
                if is_call(t, "builtins.sum"):
                    return s
                if is_call(t, "builtins.len") and len(t.a[1]) == 1 and t.a[1][0] is A["indices"]:
                    return d
                return None
            try:
                got = truth_of(inner, None, numleaf(val, lambda c, env: None))
            except Undecided as u:
                ctx.unk(R, "the naive cost counts a sum if an index is shared", loc, str(u))
                break
            ctx.put(got == (s > d), R, "the naive cost counts a sum if an index is shared", loc, f"with {s} index occurrences of {d} indices it is {got}")
    else:
        ctx.unk(R, "naive cost", loc, show(n, 4))
    # indices and subscripts
    pe = [u for u in subterms(A["input_subscripts"]) if is_call(u, "parser.parse_einsum_input")]
    if pe:
        for name, k in (("input_subscripts", 0), ("output_subscript", 1)):
            t = A[name]
            ctx.put(True if t is mk("idx", pe[0], const(k)) else False if t is mk("idx", pe[0], const(1 - k)) else None, R, name + " is that of the equation", loc, show(t, 3))
        ind = strip(A["indices"])
        base = ind
        com = False
        while mcall(base, "replace") is not None:
            com = com or is_const(base.a[1][0], ",") and is_const(base.a[1][1], "")
            base = base.a[0].a[0]
        okk = base is mk("idx", pe[0], const(0)) and com
        bad = base is mk("idx", pe[0], const(0)) and not com or base is mk("idx", pe[0], const(1))
        ctx.put(True if okk else False if bad else None, R, "the indices are those of the operands", loc, show(ind, 4))


def cost(ctx, R, name, loc, v, same_sizes, part):
    if not is_call(v, "helpers.flop_count"):
        ctx.unk(R, name, loc, show(v, 4))
        return
    want_part(ctx, R, name + " is over all its indices", loc, targ(ctx, v, "idx_contraction"), part)
    same_sizes(name, targ(ctx, v, "size_dictionary"))
    inner = strip(targ(ctx, v, "inner"), "builtins.bool")
    p = fcpart(inner)
    if p is None and inner.op == "cmp" and inner.a[0] == "lt" and is_const(inner.a[1], 0) and is_call(inner.a[2], "builtins.len"):
        p = fcpart(inner.a[2].a[1][0])
    ctx.put(None if p is None and inner.op != "const" else p is not None and p[0] == 2, R, name + " counts a sum if it sums an index", loc, show(inner, 4))
    k = targ(ctx, v, "num_terms")
    if k.op == "const":
        ctx.bad(R, name + " counts its own terms", loc, show(k))
        return
    fc = [u for u in subterms(v) if is_call(u, "helpers.find_contraction")]
    pos = {strip(targ(ctx, c, "positions")) for c in fc}
    counts(ctx, R, name + " counts its own terms", loc, k, lambda y: strip(y) in pos)


def counts(ctx, R, name, loc, k, own):
    """k is the length of an own sequence, whatever that length is"""
    for n in (1, 2, 3, 5):
        def val(t):
            if is_call(t, "builtins.len") and len(t.a[1]) == 1 and own(t.a[1][0]):
                return n
            return None
        try:
            got = numeval(k, val)
        except Undecided as u:
            ctx.unk(R, name, loc, str(u))
            return
        if got != n:
            ctx.bad(R, name, loc, f"{show(k, 4)} is {got} for {n} terms")
            return
    ctx.put(True, R, name, loc, show(k, 4))


# ---------------------------------------------------------------- the object
def nowhere(ctx, r, name):
    """the attribute is certainly not there: nothing in the class sets, defines or computes it"""
    mod = ctx.p.fn("contract.PathInfo.__init__").mod
    cls = next((n for n in ast.walk(mod.tree) if isinstance(n, ast.ClassDef) and n.name == "PathInfo"), None)
    if cls is None or cls.bases or cls.decorator_list or cls.keywords:
        return False
    for n in ast.walk(cls):
        if isinstance(n, ast.Attribute) and (n.attr == name and isinstance(n.ctx, ast.Store) or n.attr in ("__dict__", "update")):
            return False
        if isinstance(n, ast.Name) and n.id in ("setattr", "vars", "super", "locals", "__getattr__", "__getattribute__", name) and not (n.id == name and isinstance(n.ctx, ast.Load)):
            return False
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in (name, "__getattr__", "__getattribute__"):
            return False
    # stored from outside (a factory)
    return not any(isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store) for n in ast.walk(mod.tree))


def r_fields(ctx):
    R = "fields"
    fq = "contract.PathInfo.__init__"
    r = ctx.run(fq, public=True)
    P = r.params
    got = {}
    for e in r.events:
        if e.kind == "setattr" and e.fq == fq and e.obj is P[ctx.p.fn(fq).params()[0]]:
            got.setdefault(e.name, []).append(e)
    for name in ("contraction_list", "input_subscripts", "output_subscript", "path", "indices", "scale_list", "size_list", "size_dict", "naive_cost", "opt_cost"):
        if name not in got or name not in P:
            ctx.put(False if name in P and nowhere(ctx, r, name) else None, R, name, ctx.p.fn(fq).loc, "the attribute is never set")
            continue
        e = got[name][-1]
        v = strip(unesc(e.value), "decimal.Decimal", "builtins.list", "builtins.tuple", "builtins.int", "builtins.float", "builtins.dict")
        ctx.put(True if v is P[name] else False if v in set(P.values()) or v.op == "const" else None, R, f"{name} is the value given", e.loc, "set to " + show(e.value, 3))

    def val_(d):
        def val(t):
            t2 = strip(t, "decimal.Decimal", "builtins.float", "builtins.int")
            if t2 is not t:
                return numeval(t2, val)
            if t.op == "bin" and t.a[0] == "/":
                b = numeval(t.a[2], val)
                return numeval(t.a[1], val) / b
            for k, v in d.items():
                if t is P[k]:
                    return v
            return None
        return val
    for name in ("speedup", "shapes", "eq", "largest_intermediate"):
        if name not in got:
            ctx.put(False if nowhere(ctx, r, name) else None, R, name, ctx.p.fn(fq).loc, "the attribute is never set")
    if "speedup" in got:
        e = got["speedup"][-1]
        for n, o, w in ((6, 2, 3), (8, 0, 8), (3, 3, 1)):
            try:
                v = numeval(e.value, val_({"naive_cost": n, "opt_cost": o}))
            except ZeroDivisionError:
                ctx.bad(R, "speedup is naive over optimized cost", e.loc, "divides by a cost of 0")
                break
            except Undecided as u:
                ctx.unk(R, "speedup is naive over optimized cost", e.loc, str(u))
                break
            ctx.put(v == w, R, "speedup is naive over optimized cost", e.loc, f"{v} for costs {n} and {o}")
    if "largest_intermediate" in got:
        e = got["largest_intermediate"][-1]
        v = strip(e.value, "decimal.Decimal", "builtins.int", "builtins.float")
        src = v.a[1][0] if v.op == "call" and v.a[1] else None
        good = is_call(v, "builtins.max") and src is not None and strip(src) is P["size_list"]
        bad = is_call(v, "builtins.min", "builtins.sum", "builtins.len") or is_call(v, "builtins.max") and src is not None and strip(src) in set(P.values())
        ctx.put(True if good else False if bad else None, R, "the largest intermediate is the maximum of the sizes", e.loc, show(v, 3))
        if good and v.a[2]:
            d = dict(v.a[2]).get("default")
            ctx.put(True if d is not None else None, R, "a path without steps has a largest intermediate", e.loc, "")
        elif good:
            ctx.put(None if len(v.a[1]) > 1 else False, R, "a path without steps has a largest intermediate", e.loc, "max of an empty list fails")
    if "eq" in got:
        e = got["eq"][-1]
        want = mk("add", P["input_subscripts"], const("->"), P["output_subscript"])
        v = e.value
        ctx.put(True if v is want else False if v.op == "add" and set(v.a) <= {P["input_subscripts"], P["output_subscript"]} | {x for x in v.a if x.op == "const"} else None, R,
                "eq is the equation", e.loc, show(v, 3))
    if "shapes" in got:
        e = got["shapes"][-1]
        v = r.eng.freeze(e.value, r.state)
        okk = None
        if v.op == "comp" and len(v.a[2]) == 1 and mcall(v.a[2][0], "split") is not None and v.a[3] is TRUE:
            src = v.a[2][0].a[0].a[0]
            inner = strip(v.a[1])
            if inner.op == "comp" and len(inner.a[2]) == 1 and inner.a[2][0] is mk("elem", v.a[2][0], 0):
                okk = src is P["input_subscripts"] and inner.a[1] is mk("idx", P["size_dict"], mk("elem", inner.a[2][0], 0)) and inner.a[3] is TRUE or None
            elif inner.op == "comp" and is_call(inner.a[2][0], "builtins.set", "builtins.frozenset", "builtins.sorted"):
                okk = False
        ctx.put(okk, R, "shapes are the sizes of each operand's indices", e.loc, show(v, 5))


LABELS = (("Complete contraction", {"eq", "input_subscripts", "output_subscript"}), ("Naive scaling", {"indices"}), ("Optimized scaling", {"scale_list"}), ("Naive FLOP", {"naive_cost"}),
          ("Optimized FLOP", {"opt_cost"}), ("speedup", {"speedup"}), ("Largest intermediate", {"largest_intermediate"}))


def attrs(t):
    return {u.a[1] for u in subterms(t) if u.op == "attr"}


def r_print(ctx):
    R = "printed summary"
    fq = "contract.PathInfo.__repr__"
    if not ctx.has(fq):
        raise Undecided("no __repr__")
    r = ctx.run(fq, public=True)
    t = r.eng.freeze(r.ret, r.state)
    loc = ctx.p.fn(fq).loc
    terms = list(subterms(t)) + [u for e in r.events if e.kind == "mutate" for a in e.args for u in subterms(a)]
    for label, want in LABELS:
        n = 0
        for u in terms:
            if u.op != "add":
                continue
            for i, x in enumerate(u.a[:-1]):
                if x.op == "const" and isinstance(cval(x), str) and label in cval(x).split("\n")[-1]:
                    a = attrs(u.a[i + 1])
                    if not a:
                        continue
                    n += 1
                    ctx.put(bool(a & want) and not (a - want - {"input_subscripts", "output_subscript"}) or (None if a & want else False), R, f"'{label}' shows it", loc, "shows " + ", ".join(sorted(a)))
                    y = strip(u.a[i + 1])
                    if label.endswith("scaling") and a & want:
                        f = "len" if "Naive" in label else "max"
                        okk = is_call(y, "builtins." + f)
                        bad = is_call(y, "builtins.min", "builtins.sum", "builtins.len", "builtins.max")
                        ctx.put(True if okk else False if bad else None, R, f"'{label}' is the {'number' if f == 'len' else 'maximum'}", loc, show(y, 3))
                        if f == "max" and okk:
                            ctx.put(True if y.a[2] else None if len(y.a[1]) > 1 else False, R, "a path without steps can be printed", loc, "max of an empty list fails")
        if not n:
            ctx.unk(R, f"'{label}' shows it", loc, "not found")
    # rows
    n = 0
    for e in r.events:
        if e.kind == "call" and e.name == "format" and e.args and any("scale_list" in attrs(a) for a in e.args):
            n += 1
            a = e.args
            it = None
            for u in subterms(*a):
                if u.op == "elem" and "contraction_list" in attrs(u.a[0]):
                    it = u
                    break
            if it is None:
                ctx.unk(R, "rows", e.loc, "no step")
                continue
            sc = a[0]
            okk = None
            if sc.op == "idx" and "scale_list" in attrs(sc.a[0]):
                seq = strip(it.a[0], "builtins.enumerate", "builtins.list") if not is_call(it.a[0], "builtins.enumerate") else it.a[0].a[1][0]
                okk = True if sc.a[1].op == "pos" else False if sc.a[1].op in ("const", "add") or sc.a[1].op == "bin" else None
            elif sc.op in ("elem", "idx"):
                okk = None
            ctx.put(okk, R, "a row shows the scaling of its step", e.loc, show(sc, 4))

            def field(x):
                while x.op == "idx":
                    if x.a[0] is it or x.a[0].op == "elem":
                        return cval(x.a[1]) if x.a[1].op == "const" else None
                    x = x.a[0]
                return None
            if len(a) >= 4:
                f1, f2 = field(a[1]), field(a[2])
                ctx.put(None if f1 is None else f1 == 4, R, "a row shows how its step is done", e.loc, show(a[1], 3))
                ctx.put(None if f2 is None else f2 == 2, R, "a row shows the equation of its step", e.loc, show(a[2], 3))
                for lits, v in cases(a[3]):
                    if v.op == "const":
                        continue
                    js = [u for u in subterms(v) if u.op == "join"]
                    fs = {field(j.a[1]) for j in js}
                    ctx.put(True if fs == {3} else None if None in fs or not fs else False, R, "a row shows what remains after its step", e.loc, show(v, 4))
    if not n:
        ctx.unk(R, "rows", loc, "not found")


def check(ctx):
    ctx.rule("numbers", r_numbers)
    ctx.rule("fields", r_fields)
    ctx.rule("printed summary", r_print)
