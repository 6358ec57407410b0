"""C21: what a contraction expression returns does not depend on its earlier calls."""
import ast
import itertools

from sa.engine import is_call, mcall
from sa.graph import own_locals
from sa.kit import Undecided, numeval, numleaf, pick, show, strip, truth_of
from sa.src import AnalysisBroken, walk_own
from sa.terms import NONE, TRUE, contains, cval, is_const, mk, subterms
from .c15 import attr_of
from .common import cases

DESC = ("History independence by effect analysis: everything the methods of an expression write to it after construction is collected; a remembered value must be keyed by what it was computed for, the shortened list of steps must come from the same evaluation as the "
        "remembered constants, be published before them and be read after them, the evaluation of constants must stop before it touches a step with a missing operand, and functions compiled on a first call must not hold its data.")

CLS = "contract.ContractExpression"
OPQ = frozenset({"contract._core_contract", "contract.parse_backend", "backends.dispatch.evaluate_constants", "backends.dispatch.build_expression", "contract.infer_backend", "parser.infer_backend", "backends.dispatch.has_backend",
                 "contract.format_const_einsum_str"})
OPC = OPQ | {CLS + ".__call__"}


def meth(ctx):
    c = ctx.p.classes.get(CLS)
    if c is None:
        raise AnalysisBroken(CLS + " is missing")
    return c


def made(ctx):
    """attributes set by the constructor: {name: (event)}"""
    r = ctx.run(CLS + ".__init__", public=True, opaque=OPQ)
    s = r.params["self"]
    return r, {e.name: e for e in r.events if e.kind == "setattr" and e.obj is s}


def held_by(t, s):
    """name of the attribute of s whose content the object is (part of), through alternatives and updates"""
    if t.op == "phi":
        xs = {held_by(x, s) for _, x in cases(t)}
        xs.discard(None)
        return xs.pop() if len(xs) == 1 else None
    while True:
        if t.op == "attr" and t.a[0] is s:
            return t.a[1]
        if t.op in ("attr", "idx", "esc", "frozen", "setitem", "elem", "get"):
            t = t.a[0]
            continue
        if t.op == "phi":
            return held_by(t, s)
        return None


def effects(ctx):
    """[(method, run, event, attribute)] of everything written to the object after construction"""
    out = []
    for name, f in sorted(meth(ctx).methods.items()):
        if name == "__init__":
            continue
        r = ctx.run(f.fq, opaque=OPQ if name == "__call__" else OPC)
        s = r.params.get("self")
        if s is None:
            continue
        for e in r.events:
            if e.fq != f.fq:
                continue
            if e.kind == "setattr" and e.obj is s:
                out.append((f, r, e, e.name))
            elif e.kind == "mutate" and held_by(e.obj, s) is not None:
                out.append((f, r, e, held_by(e.obj, s)))
    return out


def params_in(t, r):
    return {n for n, p in r.params.items() if n != "self" and contains(t, p)}


def r_effects(ctx):
    R = "what calls write"
    r0, attrs = made(ctx)
    eff = effects(ctx)
    reads = attrs_read(ctx)
    plan = [x for x in eff if x[2].kind == "setattr"]
    memo = {}
    for f, r, e, a in eff:
        nm = f"{f.name}: {a}"
        if e.kind == "mutate":
            if e.op == "setitem" and e.obj is mk("attr", r.params["self"], a):
                memo.setdefault(a, []).append((f, r, e))
                k, v = e.args[0], e.args[1]
                need = params_in(v, r) - {"arrays", "operands", "evaluate_constants", "out"}
                miss = need - params_in(k, r)
                ctx.put(not miss, R, f"{nm} is kept under what it was computed for", e.loc, f"the value depends on {sorted(need)}, the key is {show(k, 3)}")
                i = attrs.get(a)
                ctx.put(True if i is not None and i.d.get("raw", i.value).op == "new" else False if i is not None and i.d.get("raw", i.value).op in ("gvar", "param", "default") else None, R, f"{a} is created per expression", i.loc if i else e.loc, "shared between expressions")
            elif all(x.op == "idx" for _, x in cases(e.obj)):
                ctx.bad(R, f"{nm} is not changed in place", e.loc, f"{e.op} on {show(e.obj, 3)}: the next call finds the operands of this one")
            else:
                ctx.put(None, R, nm, e.loc, f"{e.op} on {show(e.obj, 3)}")
        else:
            if a not in reads:
                ctx.ok(R, f"{nm} is not read by calls", e.loc)
                continue
            v = e.value
            ds = params_in(v, r)
            if pair_of(v) is not None and a == plan_attr(ctx):
                ctx.ok(R, f"{nm} is the list left by evaluating the constants", e.loc)
            elif ds:
                ctx.bad(R, f"{nm} is not carried from call to call", e.loc, f"{show(v, 4)} (of this call's {sorted(ds)}) is read by later calls")
            else:
                ctx.unk(R, nm, e.loc, show(v, 4))
    if not eff:
        ctx.ok(R, "calls write nothing to the expression", meth(ctx).node.lineno)


def attrs_read(ctx):
    out = set()
    for name, f in meth(ctx).methods.items():
        if name in ("__init__", "__repr__", "__str__"):
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self":
                out.add(n.attr)
    return out


def pair_of(t):
    """(evaluation, k) if every alternative of t is element k of the same evaluation of the constants"""
    ks = set()
    ev = []
    for lits, x in cases(t):
        if x.op == "idx" and x.a[1].op == "const" and cval(x.a[1]) in (0, 1) and x.a[0].op == "call":
            ks.add(cval(x.a[1]))
            ev.append((lits, x.a[0]))
        else:
            return None
    if len(ks) != 1:
        return None
    return ks.pop(), tuple(ev)


def is_self_call(t, s):
    return t.op == "call" and (t.a[0] is s or t.a[0] is mk("func", CLS + ".__call__") or t.a[0].op == "attr" and t.a[0].a[0] is s and t.a[0].a[1] == "__call__")


def plan_attr(ctx):
    """the attribute holding the list of steps later calls run"""
    r = ctx.run(CLS + "._contract", opaque=OPQ) if CLS + "._contract" in ctx.p.fns else ctx.run(CLS + ".__call__", opaque=OPQ)
    s = r.params["self"]
    for e in r.events:
        if e.kind == "call" and e.callee is mk("func", "contract._core_contract"):
            L = e.args[1] if len(e.args) > 1 else dict(e.kws).get("contraction_list")
            at = {x.a[1] for _, x in cases(L) if x.op == "attr" and x.a[0] is s}
            ev = {a for f, rr, ee, a in effects(ctx) if ee.kind == "setattr"}
            got = at & ev
            if len(got) == 1:
                return got.pop()
    return "contraction_list"


def core_calls(ctx):
    r = ctx.run(CLS + ".__call__", public=True, opaque=OPQ)
    return r, [e for e in r.events if e.kind == "call" and e.callee is mk("func", "contract._core_contract")]


def r_pair(ctx):
    R = "steps and constants"
    f, r, ev = evaluator(ctx)
    s = r.params["self"]
    P = plan_attr(ctx)
    sets = [e for e in r.events if e.kind == "setattr" and e.obj is s and e.name == P]
    puts = [e for e in r.events if e.kind == "mutate" and e.op == "setitem" and attr_of(e.obj, s) and pair_of(e.args[1]) is not None]
    if not puts:
        ctx.unk(R, "constants are remembered", f.loc)
        return
    put = puts[0]
    if not sets:
        ctx.bad(R, "the list of steps left is remembered with the constants", put.loc, "the evaluated constants are kept, the steps they have taken are not left out")
        return
    st = sets[0]
    a, b = pair_of(put.args[1]), pair_of(st.value)
    ctx.put(a[0] == 0 if a else None, R, "the operands are remembered as the constants", put.loc, show(put.args[1], 4))
    ctx.put(None if b is None else b[0] == 1 and b[1] == a[1], R, "steps and constants come from one evaluation", st.loc, show(st.value, 4))
    ctx.put(st.n < put.n, R, "the steps are published before the constants that make a backend ready", put.loc, "a concurrent call finds the constants and runs all steps on them")
    ctx.put(True if not [x for x in st.facts if x not in put.facts] else None, R, "both are remembered together", st.loc, "")
    # all operands, in their places
    for lits, t in a[1]:
        ops = list(t.a[1])
        kws = dict(t.a[2])
        nm = "evaluated on all operands in their places"
        lst = None
        if is_self_call(t, s):
            if len(ops) == 1 and ops[0].op == "star":
                lst = ops[0].a[0]
            flag = kws.get("evaluate_constants")
            ctx.put(flag is TRUE if flag is not None else False, R, "evaluated as constants", f.loc, show(t, 4))
            be = kws.get("backend")
        else:
            c = [x for x in ops if x.op in ("comp", "out", "new")]
            lst = c[0] if c else None
            be = ops[0] if ops else None
        ctx.put(full_list(lst, s, ctx), R, nm, f.loc, show(lst, 5) if lst is not None else show(t, 3))
        # the same backend names the entry
        k = put.args[0]
        ctx.put(True if be is k else False if be is not None and be.op == "const" else None, R, "remembered under the backend evaluated with", put.loc, f"{show(be, 3) if be is not None else 'default'} / {show(k, 3)}")


def full_list(t, s, ctx):
    if t is None:
        return None
    t = strip(t, "builtins.list", "builtins.tuple")
    if t.op != "comp" or len(t.a[2]) != 1 or not is_const(t.a[3], True):
        return None
    it = t.a[2][0]
    x = t.a[1]
    _, attrs = made(ctx)
    cd = mk("attr", s, "_constants_dict")
    if not (is_call(it, "builtins.range") and len(it.a[1]) == 1 and it.a[1][0].op == "attr"):
        return None
    full = it.a[1][0].a[1]
    el = mk("elem", it, 0)
    ok = x.op == "get" and len(x.a) == 3 and x.a[0] is cd and x.a[1] is el and x.a[2] is NONE
    if x.op == "phi" and x.a[2] is NONE and x.a[1] is mk("idx", cd, el) and x.a[0].op == "cmp" and x.a[0].a[0] == "in" and x.a[0].a[1] is el:
        ok = True
    n = number(ctx, attrs.get(full))
    if ok and n is not None and n != "full":
        return False
    if not ok and x.op == "get" and x.a[0] is cd and x.a[1] is not el:
        return False
    return True if ok and n == "full" else None


def number(ctx, e):
    """'full' if the attribute counts all terms, 'free' if those without constants"""
    if e is None:
        return None
    res = {}
    for n, c in ((3, 0), (3, 1), (5, 2)):
        def val(q):
            if is_call(q, "builtins.len"):
                x = strip(q.a[1][0])
                if mcall(x, "split") is not None:
                    return n
                return c
            if mcall(q, "count") is not None and q.a[1] and is_const(q.a[1][0], ","):
                return n - 1
            return None
        try:
            res[n, c] = numeval(e.value, val)
        except Undecided:
            return None
    if all(v == n for (n, c), v in res.items()):
        return "full"
    if all(v == n - c for (n, c), v in res.items()):
        return "free"
    return "other"


def evaluator(ctx):
    """the method that evaluates the constants and remembers the result"""
    for name, f in sorted(meth(ctx).methods.items()):
        if name == "__init__":
            continue
        r = ctx.run(f.fq, opaque=OPQ if name == "__call__" else OPC)
        s = r.params.get("self")
        ev = [e for e in r.events if e.fq == f.fq and e.kind == "mutate" and e.op == "setitem" and attr_of(e.obj, s) and pair_of(e.args[1]) is not None]
        if ev:
            return f, r, ev[0]
    raise Undecided("no method remembers evaluated constants")


def r_call(ctx):
    R = "a call"
    r, calls = core_calls(ctx)
    s = r.params["self"]
    P = plan_attr(ctx)
    if not calls:
        raise Undecided("no contraction in __call__")
    evc = r.params.get("evaluate_constants")
    cdict = mk("attr", s, "_constants_dict")
    _, attrs = made(ctx)
    fullplan = [a for a, e in attrs.items() if a != P and P in attrs and e.value is attrs[P].value]

    def leaf_for(evaluating, hasconst, known):
        def leaf(c, env):
            if c is evc:
                return evaluating
            if c is cdict or is_call(c, "builtins.len") and c.a[1][0] is cdict or is_call(c, "builtins.bool") and c.a[1][0] is cdict:
                return hasconst
            if c.op == "cmp" and c.a[0] == "in" and attr_of(c.a[2], s):
                return known
            if c.op == "cmp" and c.a[0] == "in" and c.a[2].op == "phi":
                try:
                    d = pick(c.a[2], leaf)
                except Undecided:
                    return None
                if d.op == "setitem" and d.a[1] is c.a[1]:
                    return True
                return known if attr_of(d, s) else None
            if c.op == "exc":
                return False
            return None
        return leaf
    for e in calls:
        L = e.args[1] if len(e.args) > 1 else dict(e.kws).get("contraction_list")
        O = e.args[0]
        for evaluating, hasconst, known in ((True, True, False), (True, True, True), (False, False, False), (False, True, True), (False, True, False)):
            leaf = leaf_for(evaluating, hasconst, known)
            nm = "evaluating constants" if evaluating else "no constants" if not hasconst else "constants known" if known else "constants evaluated by this call"
            try:
                l, o = pick(L, leaf), pick(O, leaf)
            except Undecided as u:
                ctx.unk(R, nm + ": steps", e.loc, str(u))
                continue
            if evaluating:
                if l.op == "attr" and l.a[0] is s:
                    ctx.put(True if l.a[1] in fullplan else False if l.a[1] == P else None, R, nm + ": all steps", e.loc, f"runs {show(l, 3)}, which an earlier evaluation has shortened")
                else:
                    ctx.unk(R, nm + ": all steps", e.loc, show(l, 3))
                o = strip(o, "builtins.list", "builtins.tuple")
                ctx.put(True if o is r.params["arrays"] else None, R, nm + ": operands as given", e.loc, show(o, 4))
            elif not hasconst or known:
                ctx.put(True if l is mk("attr", s, P) else False if hasconst and l.op == "attr" and l.a[1] in fullplan else None if hasconst else (True if l.op == "attr" and l.a[1] in fullplan else None), R, nm + ": steps", e.loc, f"runs {show(l, 3)}")
                if not hasconst:
                    o = strip(o, "builtins.list", "builtins.tuple")
                    ctx.put(True if o is r.params["arrays"] else None, R, nm + ": operands as given", e.loc, show(o, 4))
                else:
                    merged(ctx, R, nm, e, o, r, leaf)
            else:
                # the list must be the one the evaluation in this call has left
                if l.op == "idx" and is_const(l.a[1], 1):
                    ctx.ok(R, nm + ": the steps left by the evaluation", e.loc)
                elif l.op == "attr" and l.a[0] is s:
                    ctx.bad(R, nm + ": the steps left by the evaluation", e.loc, f"runs {show(l, 3)} as it was before the evaluation, on evaluated constants")
                else:
                    ctx.unk(R, nm + ": the steps left by the evaluation", e.loc, show(l, 3))
                merged(ctx, R, nm, e, o, r, leaf)
        # other options of the expression are handed on unchanged
        k = [v for kk, v in e.kws if kk is None]
        ctx.put(True if k and k[0] is mk("attr", s, "kwargs") else None if k else False, R, "the options of the expression are used", e.loc, "they are not passed to the contraction")
    # the key used is the one evaluated for
    keys(ctx, R, r, s)


def merged(ctx, R, nm, e, o, r, leaf):
    """constants with the given arrays in the gaps, in order"""
    o = strip(o, "builtins.list", "builtins.tuple")
    name = nm + ": arrays fill the gaps between the constants"
    if o.op != "comp" or len(o.a[2]) != 1:
        ctx.unk(R, name, e.loc, show(o, 3))
        return
    el = mk("elem", o.a[2][0], 0)
    x = o.a[1]
    ok = None
    if x.op == "phi" and x.a[0].op == "cmp" and x.a[0].a[0] == "is" and x.a[0].a[2] is NONE and x.a[0].a[1] is el:
        a, b = x.a[1], x.a[2]
        if b is el and a.op == "next":
            it = a.a[0]
            if is_call(it, "builtins.iter") and it.a[1][0] is r.params["arrays"]:
                ok = True
            elif any(y.op == "call" and is_call(y, "builtins.reversed") for y in subterms(it)):
                ok = False
        elif a is el and b.op == "next":
            ok = False
    if not is_const(o.a[3], True):
        ok = None
    ctx.put(ok, R, name, e.loc, show(x, 4))


def keys(ctx, R, r, s):
    for fq in [q for q in ctx.p.fns if q.startswith(CLS + "._get")]:
        g = ctx.run(fq, opaque=OPQ)
        gs = g.params["self"]
        for e in g.events:
            if e.kind == "getitem" and e.fq == fq and attr_of(e.obj, gs):
                k = e.key
                be = g.params.get("backend")
                if be is None:
                    continue
                ctx.put(True if k is be else False if k.op == "const" else None, R, f"{fq.rsplit('.', 1)[1]}: looked up for the backend of the call", e.loc, show(k, 3))
    # an explicit backend stays what it is, so the entry looked up is the one evaluated
    q = ctx.run("contract.parse_backend", opaque={"contract.infer_backend", "parser.infer_backend", "backends.dispatch.has_tensordot"})
    b = q.params["backend"]

    def leaf(c, env):
        if c.op == "cmp" and c.a[1] is b:
            return False
        return None
    try:
        v = pick(q.ret, leaf)
        ctx.put(True if v is b else False, R, "an explicit backend is taken as it is", ctx.p.fn("contract.parse_backend").loc, f"it becomes {show(v, 4)}: constants are then looked up under another name than they were stored")
    except Undecided as u:
        ctx.unk(R, "an explicit backend is taken as it is", ctx.p.fn("contract.parse_backend").loc, str(u))


def r_stop(ctx):
    R = "evaluating constants"
    fq = "contract._core_contract"
    r = ctx.run(fq, public=True, opaque={"contract.parse_backend", "backends.dispatch.has_einsum", "contract._tensordot", "contract._einsum", "contract._transpose"})
    evc = r.params.get("evaluate_constants")
    if evc is None:
        ctx.unk(R, "stop", fq)
        return
    rets = [e for e in r.events if e.kind == "return" and e.fq == fq and e.loops]
    if not rets:
        ctx.bad(R, "stops at a step with a missing operand", ctx.p.fn(fq).loc, "no way out of the loop over the steps")
        return
    lids = {e.loops[-1][0] for e in rets}
    for e in rets:
        lp = r.eng.loops[e.loops[-1][0]]
        v = e.value
        if v.op != "tup" or len(v.a) != 2:
            ctx.unk(R, "result", e.loc, show(v, 3))
            continue
        ops, rest = v.a
        # operands untouched in this step
        o = ops
        while o.op in ("esc", "frozen"):
            o = o.a[0]
        ctx.put(True if o.op == "mu" else False if o.op in ("popped", "dropall", "append") else None, R, "operands of the step that is left are untouched", e.loc, f"{show(ops, 4)} is returned")
        # steps left
        lst = r.params.get("contraction_list")
        sl = rest.a[1] if rest.op == "idx" and rest.a[1].op == "slice" and rest.a[0] is lst else None
        if sl is not None:
            start = sl.a[0]
            pos = position(r, lp, start)
            ctx.put(pos, R, "the steps from this one on are left", e.loc, f"{show(rest, 4)}")
            ctx.put(True if all(x is NONE for x in sl.a[1:]) else False, R, "no step at the end is lost", e.loc, show(rest, 4))
        else:
            ctx.put(False if rest is lst else None, R, "the steps from this one on are left", e.loc, show(rest, 4))
        # when
        for evaluating, missing, last in itertools.product((False, True), repeat=3):
            def leaf(c, env):
                if c is evc:
                    return evaluating
                if c.op == "any":
                    w = missing_test(c, r)
                    return None if w is None else False if w == "part" else missing
                if c.op == "cmp" and c.a[0] in ("eq", "lt") and any(is_call(x, "builtins.len") for x in subterms(c)):
                    n = 5 if last else 2

                    def val(t):
                        if is_call(t, "builtins.len"):
                            return 6
                        if t.op in ("pos", "posof") or t.op == "idx" and t.a[0].op == "elem" or t.op == "elem":
                            return n
                        if t.op == "mu":
                            return n
                        return None
                    return numleaf(val)(c, env)
                return None
            nm = ("evaluating" if evaluating else "an ordinary call") + (", an operand of the step missing" if missing else ", no operand missing") + (", last step" if last else "")
            own = [f for f in e.facts]
            try:
                got = all(truth_of(f, None, leaf) for f in own)
            except Undecided as u:
                ctx.unk(R, nm, e.loc, str(u))
                continue
            if not evaluating:
                ctx.put(not got, R, nm + ": goes on", e.loc, "the contraction ends early")
            elif missing:
                ctx.put(got, R, nm + ": stops", e.loc, "the step is run without its operand")
            elif last:
                ctx.put(got, R, nm + ": stops", e.loc, "with all operands constant nothing is left to unpack: the expression fails")


def missing_test(c, r):
    """any(operands[x] is None for x in inds) -> True; over a part of the positions only -> 'part'"""
    cond, it = c.a[0], strip(c.a[1])
    el = mk("elem", c.a[1], 0)
    if not (cond.op == "cmp" and cond.a[0] == "is" and cond.a[2] is NONE):
        return None
    x = cond.a[1]
    if x.op == "idx" and x.a[1] is el:
        pass                     # operands[x] for x in positions
    elif x is el and it.op == "comp":
        it = strip(it.a[2][0])   # over [operands[x] for x in positions]
    else:
        return None
    if it.op == "idx" and it.a[1].op == "slice":
        return "part"
    if it.op == "idx" and it.a[1].op == "const" and cval(it.a[1]) == 0:
        return True
    return None


def position(r, lp, start):
    if start.op in ("pos", "posof"):
        return True
    if start.op == "add" and any(x.op == "posof" for x in start.a) and len(start.a) == 2 and any(x.op == "const" for x in start.a):
        return False
    if start.op == "idx" and is_const(start.a[1], 0) and start.a[0].op == "elem" and is_call(start.a[0].a[0], "builtins.enumerate"):
        x = start.a[0].a[0]
        return True if len(x.a[1]) == 1 and not x.a[2] else None
    if start.op == "mu":
        i, s = lp.init.get(start), lp.step.get(start)
        if i is not None and is_const(i, 0) and s.op == "add":
            return True
    if start.op == "add":
        ps = [x for x in start.a if x.op == "pos" or x.op == "idx" and x.a[0].op == "elem"]
        cs = [x for x in start.a if x.op == "const"]
        if len(ps) == 1 and len(cs) == 1 and len(start.a) == 2:
            return False
    if start.op == "const":
        return False
    return None


def r_compiled(ctx):
    R = "functions kept per backend"
    n = 0
    for q, f in sorted(ctx.p.fns.items()):
        if not q.startswith("backends.") or not f.name.startswith("build_expression") or ".<" in q:
            continue
        ps = f.params()
        if len(ps) < 2:
            continue
        data = ps[0]
        inner = [g for k, g in ctx.p.fns.items() if k.startswith(q + ".<") and k.count("<") == 1]
        if not inner:
            continue
        n += 1
        taint = tainted(ctx, f, data)
        used = {}
        for g in inner:
            loc = own_locals(g)
            for x in ast.walk(g.node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in loc and (x.id in taint or x.id == data):
                    used[x.id] = x
        if not used:
            ctx.ok(R, f"{q}: holds nothing of the first call's arrays", f.loc)
            continue
        for v, node in used.items():
            how = taint.get(v)
            if v == data:
                ctx.bad(R, f"{q}: holds nothing of the first call's arrays", f"{f.mod.rel}:{node.lineno}", f"the function kept for later calls uses {v}, the arrays of the first")
            elif how is None:
                ctx.unk(R, f"{q}: holds nothing of the first call's arrays", f"{f.mod.rel}:{node.lineno}", v)
            else:
                ok = all(placeholder(ctx, f, c) for c in how)
                unk = any(placeholder(ctx, f, c) is None for c in how)
                ctx.put(None if unk else ok, R, f"{q}: {v} stands for arrays, not for their values", f"{f.mod.rel}:{node.lineno}", f"made by {', '.join(ast.unparse(c) for c in how)}")
    if not n:
        ctx.unk(R, "functions", "opt_einsum/backends")


def tainted(ctx, f, data):
    """{variable: conversion calls its dependence on the data passes through} (None: not through conversions)"""
    out = {}

    def of(e):
        """conversion calls through which expression e depends on the data; [] independent; None directly"""
        res = []
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in out:
                if out[n.id] is None:
                    return None
                res += out[n.id]
        conv = []
        shadow = set()
        for n in ast.walk(e):
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and any(isinstance(m, ast.Name) and m.id == data for g in n.generators for m in ast.walk(g.iter)):
                # elements of the data: every use must be the argument of one call
                names = {t.id for g in n.generators for t in ast.walk(g.target) if isinstance(t, ast.Name)}
                calls = [c for c in ast.walk(n.elt) if isinstance(c, ast.Call) and c.args and isinstance(c.args[0], ast.Name) and c.args[0].id in names]
                inside = {id(m) for c in calls for m in c.args[:1]}
                if calls and all(id(m) in inside for m in ast.walk(n.elt) if isinstance(m, ast.Name) and m.id in names):
                    conv += calls
                    shadow |= {id(m) for m in ast.walk(n)}
                else:
                    return None
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and n.id == data and id(n) not in shadow:
                return None
        return res + conv
    for s in walk_own(f.node):
        if isinstance(s, ast.Assign):
            h = of(s.value)
            if h != []:
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            out[n.id] = h
    return out


def placeholder(ctx, f, call):
    """does the conversion, as called, keep only type and shape of an array?"""
    t = ctx.p.lookup_expr(f.mod, call.func)
    if t is None or t.op != "func":
        return None
    kws = {k.arg: k.value for k in call.keywords}
    const = kws.get("constant")
    if const is None and len(call.args) > 1:
        const = call.args[1]
    if const is not None and not isinstance(const, ast.Constant):
        return None
    flag = bool(const.value) if const is not None else False
    r = ctx.run(t.a[0])
    P = list(r.params.values())
    arr = P[0]
    ctl = P[1] if len(P) > 1 else None

    def leaf(c, env):
        if c is ctl:
            return flag
        if c.op == "call" and c.a[0].op == "func" and c.a[0].a[0].endswith("has_array_interface"):
            return True
        if c.op == "hasattr" and c.a[0] is arr:
            return True
        if c.op == "idx" or c.op == "phi" or c.op == "exc":
            return False        # graph mode
        return None
    try:
        v = pick(r.ret, leaf)
    except Undecided:
        return None
    bare = [x for x in subterms(v, stop=lambda y: y.op == "attr" and y.a[0] is arr and y.a[1] in ("shape", "dtype", "ndim")) if x is arr]
    return not bare


def r_fixed(ctx):
    R = "fixed parts"
    """what the constructor stores is the caller's request and is never replaced"""
    r, attrs = made(ctx)
    P = plan_attr(ctx)
    eff = {a for f, rr, e, a in effects(ctx)}
    for a in sorted(attrs):
        if a == P or a not in attrs_read(ctx):
            continue
        e = attrs[a]
        raw = e.d.get("raw", e.value)
        if raw.op == "new" and e.value.op in ("dict", "lst", "set") or a in eff:
            continue
        ctx.ok(R, f"{a} stays as constructed", e.loc)
    for a, want in (("_full_num_args", "full"), ("num_args", "free")):
        if a in attrs:
            n = number(ctx, attrs[a])
            ctx.put(None if n is None else n == want, R, f"{a} counts {'all operands' if want == 'full' else 'the operands of a call'}", attrs[a].loc, show(attrs[a].value, 4))


def check(ctx):
    meth(ctx)
    ctx.rule("what calls write", r_effects)
    ctx.rule("steps and constants", r_pair)
    ctx.rule("a call", r_call)
    ctx.rule("evaluating constants", r_stop)
    ctx.rule("functions kept per backend", r_compiled)
    ctx.rule("fixed parts", r_fixed)
