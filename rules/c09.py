"""C09: an output array given by the caller receives the result and is what is returned, on every route."""
import itertools

from sa.engine import is_call, mcall
from sa.kit import Undecided, kw, numleaf, phis, pick, show, strip, truth_of
from sa.src import AnalysisBroken
from sa.terms import NONE, TRUE, const, contains, cval, is_const, mk, subterms
from .c07 import reachable
from .common import ABSENT, call_arg, cases, dict_look, same_entry
from .plan import Exec, Plan

DESC = ("Must-flow analysis of the `out` argument: for every route (single einsum, planned contraction by einsum or tensordot, expression with and without "
        "conversion, torch) the array is shown to be handed on or filled exactly at the last step, for given/not given x step position x route, and to be the value returned.")


def is_none(c, o):
    return c.op == "cmp" and c.a[0] == "is" and c.a[1] is o and c.a[2] is NONE


def whole(k):
    """does the subscript address the whole array, of any number of dimensions? True/False/None"""
    if k.op == "ellipsis" or k.op == "tup" and not k.a:
        return True
    if k.op == "const":
        return True if cval(k) is Ellipsis or cval(k) == () else False
    if (k.op == "ext" and k.a[0].endswith("Ellipsis")) or (k.op == "tup" and len(k.a) == 1 and whole(k.a[0]) is True):
        return True
    if k.op == "slice":
        return False       # fails for a result without dimensions
    return None


def obj_of(r, t):
    """the caller's object a (possibly updated) value is"""
    seen = 0
    while seen < 50:
        seen += 1
        if t.op == "mu" and t in r.eng.muinfo:
            kind, k = r.eng.muinfo[t]
            if kind == "heap":
                t = k
                continue
            return t
        if t.op == "setitem" or t.op == "esc":
            t = t.a[0]
            continue
        if t.op == "out":
            lp = r.eng.loops.get(t.a[0])
            v = t.a[2]
            if v.op == "phi":
                xs = {obj_of(r, x) for _, x in cases(v)}
                return xs.pop() if len(xs) == 1 else t
            t = v
            continue
        if t.op == "phi":
            xs = {obj_of(r, x) for _, x in cases(t)}
            return xs.pop() if len(xs) == 1 else t
        return t
    return t


def r_entry(ctx):
    R = "contract"
    OP = frozenset({"contract.contract_path", "contract._core_contract", "contract.ContractExpression", "contract._einsum", "contract.parse_backend"})
    r = ctx.run("contract.contract", public=True, opaque=OP)
    out = r.params.get("out")
    if out is None:
        raise AnalysisBroken("contract has no out argument")
    n = 0
    for e in r.events:
        if e.kind != "call" or e.callee.op != "func" or e.callee.a[0] not in ("contract._einsum", "contract._core_contract"):
            continue
        fq = e.callee.a[0]
        n += 1
        v = kw(e, "out")
        if v is None and fq != "contract._einsum":
            v = call_arg(e, ctx.p.fn(fq), "out")
        c = f"{'single einsum' if fq.endswith('_einsum') else 'planned contraction'}: handed on"
        if v is None:
            # perhaps inside a ** dictionary
            star = [d for k, d in e.kws if k is None]
            got = None
            for d in star:
                try:
                    x = dict_look(d, "out")
                    got = True if x is out else got
                except Undecided:
                    got = got
            if got is None and any(contains(d, out) for d in star):
                ctx.unk(R, c, e.loc, "out may be inside " + show(star[0], 4))
            else:
                ctx.put(got is True, R, c, e.loc, "the output array is not passed on")
        else:
            ctx.put(True if v is out else None if contains(v, out) else False, R, c, e.loc, "passes " + show(v, 3) + " instead of the output array")
    if not n:
        raise Undecided("no computing call in contract")
    for e in r.events:
        if e.kind == "return" and e.fq == "contract.contract":
            v = e.value
            if v.op == "call" and v.a[0].op in ("func", "class") and v.a[0].a[0] in OP:
                ctx.ok(R, "the computed value is returned", e.loc)
            elif v is out:
                # returning out itself is as good when it was handed on
                ctx.ok(R, "the computed value is returned", e.loc)
            else:
                ctx.unk(R, "the computed value is returned", e.loc, show(v, 3))


def step_leaf(x, out, given, pos, n, eqorder=None, arity=2):
    def val(t):
        if is_call(t, "builtins.len") and len(t.a[1]) == 1:
            y = strip(t.a[1][0])
            if x.role(y) == "inds" or y.op == "comp" and len(y.a[2]) == 1 and y.a[3] is TRUE and x.role(strip(y.a[2][0])) == "inds":
                return arity
        if t.op == "pos" and strip(t.a[0]) is x.steps:
            return pos
        if is_call(t, "builtins.len") and len(t.a[1]) == 1 and strip(t.a[1][0]) is x.steps:
            return n
        return None

    def more(c, env):
        if is_none(c, out):
            return not given
        if c.op == "cmp" and c.a[0] == "eq" and eqorder is not None:
            if x.split(c.a[1]) == "result" or x.split(c.a[2]) == "result":
                return eqorder
        return None
    return numleaf(val, more)


def r_executor(ctx):
    R = "executor"
    pl = Plan(ctx)
    x = Exec(ctx, pl)
    out = x.p.get("out")
    if out is None:
        raise Undecided("the executor has no out argument")
    writes = [e for e in x.r.events if e.kind == "mutate" and obj_of(x.r, e.obj) is out]
    ein = x.calls("contract._einsum")
    if any(a is out for e in x.r.events for f in e.facts for a in _atoms(f)):
        ctx.bad(R, "whether an output was given does not depend on its contents", x.where, "the truth value of the array is tested instead of `is None`")
    # what a step appends on the tensordot route
    lp = None
    for e in x.r.events:
        if e.kind == "popseq" and e.loops:
            lp, m = x.r.eng.loops[e.loops[0][0]], e.content
            break
    upd = lp.step.get(m) if lp is not None else None
    for n in (1, 2, 3):
        for pos in range(n):
            for given in (True, False):
                want = given and pos == n - 1
                case = f"output {'given' if given else 'not given'}, step {pos + 1} of {n}"
                for e, arity in [(e, a) for e in ein for a in (2, 1, 3)]:
                    if arity != 2:
                        case = f"output {'given' if given else 'not given'}, step {pos + 1} of {n}, {arity} operands"
                    v = kw(e, "out")
                    if v is None:
                        ctx.put(not want if not any(k is None and contains(d, out) for k, d in e.kws) else None, R, f"einsum route, {case}", e.loc,
                                "the output array is not passed to the last einsum")
                        continue
                    try:
                        v = pick(v, step_leaf(x, out, given, pos, n, arity=arity))
                    except Undecided as u:
                        ctx.unk(R, f"einsum route, {case}", e.loc, str(u))
                        continue
                    o = obj_of(x.r, v)
                    if want:
                        ctx.put(True if o is out else False if v is NONE else None, R, f"einsum route, {case}", e.loc, "the output array is not passed to the last einsum")
                    else:
                        ctx.put(True if v is NONE or (not given and o is out) else False if o is out else None, R, f"einsum route, {case}", e.loc,
                                "the output array is passed to a step that is not the last")
                for eq in (False, True):
                    lf = step_leaf(x, out, given, pos, n, eq)
                    got = [reachable(e.facts, lf) for e in writes]
                    c = f"tensordot route, {case}, result {'in' if eq else 'not in'} the requested order"
                    if want:
                        ctx.put(True if True in got else None if None in got else False, R, c, writes[0].loc if writes else x.where, "the result is not written into the output array")
                        # the value written is the one the step produces
                        for e, g in zip(writes, got):
                            if g is not True or e.op != "setitem" or upd is None or upd.op != "append":
                                continue
                            v = upd.a[1]
                            try:
                                tdv = [a for lits, a in cases(v) if contains(a, lambda u: is_call(u, "contract._tensordot"))]
                                v = _pick_td(v, lf)
                            except Undecided as u:
                                ctx.unk(R, c + ": the value of the step", e.loc, str(u))
                                continue
                            ctx.put(True if e.args[1] is v else False if e.args[1] in tdv else None, R, c + ": the value of the step", e.loc,
                                    "writes " + show(e.args[1], 3) + ", the step yields " + show(v, 3))
                    else:
                        ctx.put(False if True in got else None if None in got else True, R, c, writes[0].loc if writes else x.where,
                                "the output array is written although " + ("the step is not the last" if given else "none was given"))
    for e in writes:
        if e.op == "setitem":
            ctx.put(whole(e.args[0]), R, "the whole array is filled, whatever its number of dimensions", e.loc, f"subscript {show(e.args[0])} does not address an array without dimensions")
        else:
            ctx.unk(R, "how the array is filled", e.loc, e.op)
    for given in (True, False):
        rets = [e for e in x.r.events if e.kind == "return" and not e.loops and e.fq == "contract._core_contract"]
        live = [(e, reachable(e.facts, step_leaf(x, out, given, 0, 1))) for e in rets]
        for e, g in live:
            if g is False:
                continue
            try:
                v = pick(e.value, step_leaf(x, out, given, 0, 1))
            except Undecided:
                v = e.value
            o = obj_of(x.r, v)
            isop = v.op == "idx" and v.a[1].op == "const"
            if given:
                ctx.put(True if o is out else False if isop and g else None, R, "the output array is returned", e.loc, "returns " + show(v, 3))
            else:
                ctx.put(False if o is out and g else True if isop else None, R, "the result is returned when no output was given", e.loc, "returns " + show(v, 3))


def _pick_td(v, lf):
    """the value of the tensordot route"""
    while v.op == "phi":
        try:
            v = v.a[1] if truth_of(v.a[0], None, lf) else v.a[2]
            continue
        except Undecided:
            pass
        a, b = (any(is_call(y, "contract._tensordot") for y in subterms(z)) for z in v.a[1:])
        if a and not b:
            v = v.a[1]
        elif b and not a:
            v = v.a[2]
        else:
            raise Undecided("value of the step")
    return v


def _atoms(c):
    from .common import atoms_of
    return atoms_of(c)


def r_einsum(ctx):
    R = "einsum call"
    r = ctx.run("contract._einsum", opaque=frozenset({"parser.convert_to_valid_einsum_chars", "parser.has_valid_einsum_chars_only", "parser.find_output_str", "backends.dispatch.get_func"}))
    kwargs = r.params.get("kwargs")
    if kwargs is None:
        raise Undecided("_einsum takes no **kwargs")
    n = 0
    for e in r.events:
        if e.kind != "call" or not is_call(e.callee, "backends.dispatch.get_func"):
            continue
        n += 1

        def more(c, env):
            if c.op == "cmp" and c.a[0] == "is" and c.a[2] is NONE and same_entry(c.a[1], kwargs, "out"):
                return False
            if c.op == "cmp" and c.a[0] == "in" and is_const(c.a[1], "out"):
                return True
            if c.op == "cmp" and c.a[0] == "in" and same_entry(c.a[1], kwargs, "out"):
                return None
            return None
        v = kw(e, "out")
        if v is None:
            v = ABSENT
            for k, d in e.kws:
                if k is None:
                    v = dict_look(d, "out", more)
        try:
            v = pick(v, more)
        except Undecided:
            pass
        ctx.put(True if same_entry(v, kwargs, "out") else False if v in (ABSENT, NONE) else None, R, "the output array reaches the backend's einsum", e.loc, "passes " + show(v, 3))
    if not n:
        raise Undecided("no backend call in _einsum")


def r_expression(ctx):
    R = "expression"
    CE = "contract.ContractExpression"
    r = ctx.run(CE + ".__call__", public=True, opaque=frozenset({CE + "._contract_with_conversion", CE + "._contract", "contract.parse_backend", "contract.infer_backend"}))
    out = r.params.get("out")
    n = 0
    for e in r.events:
        if e.kind == "call" and e.callee.op == "func" and e.callee.a[0] in (CE + "._contract_with_conversion", CE + "._contract", "contract._core_contract"):
            fq = e.callee.a[0]
            v = call_arg(e, ctx.p.fn(fq), "out", has_self=not fq.endswith("_core_contract"))
            n += 1
            ctx.put(True if v is out else False if v is None or v is NONE else None, R, f"__call__ hands it to {fq.split('.')[-1]}", e.loc, "the output array is not passed on")
    if not n:
        raise Undecided("no computing call in ContractExpression.__call__")
    if ctx.has(CE + "._contract"):
        r = ctx.run(CE + "._contract", opaque=frozenset({"contract._core_contract"}))
        for e in r.events:
            if e.kind == "call" and e.callee.op == "func" and e.callee.a[0] == "contract._core_contract":
                v = call_arg(e, ctx.p.fn("contract._core_contract"), "out")
                ctx.put(True if v is r.params.get("out") else False if v is None or v is NONE else None, R, "_contract hands it to the executor", e.loc, "the output array is not passed on")
        for e in r.events:
            if e.kind == "return" and e.fq == CE + "._contract":
                ctx.put(True if is_call(e.value, "contract._core_contract") or e.value is r.params.get("out") else None, R, "_contract returns the executor's result", e.loc, show(e.value, 3))
    if ctx.has(CE + "._contract_with_conversion"):
        filled(ctx, R, "_contract_with_conversion", CE + "._contract_with_conversion", ctx.run(CE + "._contract_with_conversion"), "out", flags={"evaluate_constants": False})


def filled(ctx, R, name, fq, r, pname, flags=(), find=None):
    """the function fills `out` with what it returns otherwise, and returns it"""
    out = find(r) if find else r.params.get(pname)
    if out is None:
        raise Undecided(f"{name} has no {pname}")
    flags = dict(flags)

    def leaf(given):
        def lf(c, env):
            if is_none(c, out) or (c.op == "cmp" and c.a[0] == "is" and c.a[2] is NONE and c.a[1] is out):
                return not given
            for k, v in flags.items():
                if k in r.params and c is r.params[k]:
                    return v
            if c.op == "cmp" and c.a[0] == "in" and is_const(c.a[1], "out") and out.op == "get":
                return given
            return None
        return lf
    ws = [e for e in r.events if e.kind == "mutate" and obj_of(r, e.obj) is out]
    top = fq
    rets = [e for e in r.events if e.kind == "return" and e.fq == top]
    plain = None
    for e in rets:
        if reachable(e.facts, leaf(False)) is False:
            continue
        v = e.value
        try:
            v = pick(v, leaf(False))
        except Undecided:
            pass
        if obj_of(r, v) is out:
            ctx.put(None, R, f"{name}: returns the result", e.loc, show(v, 3))
        else:
            plain = v
    got = [(e, reachable(e.facts, leaf(True))) for e in ws]
    where = ws[0].loc if ws else rets[0].loc if rets else ""
    ctx.put(True if any(g is True for _, g in got) else None if any(g is None for _, g in got) else False, R, f"{name}: a given output is filled", where, "the output array is never written")
    for e, g in got:
        if g is False:
            continue
        if e.op != "setitem":
            ctx.unk(R, f"{name}: how it is filled", e.loc, e.op)
            continue
        ctx.put(whole(e.args[0]), R, f"{name}: the whole array is filled, whatever its number of dimensions", e.loc, f"subscript {show(e.args[0])} does not address an array without dimensions")
        ctx.put(True if e.args[1] is plain else None, R, f"{name}: filled with the result", e.loc, "writes " + show(e.args[1], 3))
        ctx.put(False if reachable(e.facts, leaf(False)) is True else True, R, f"{name}: nothing is written when none was given", e.loc, "writes without an output array")
    for e in rets:
        g = reachable(e.facts, leaf(True))
        if g is False:
            continue
        v = e.value
        try:
            v = pick(v, leaf(True))
        except Undecided:
            pass
        ctx.put(True if obj_of(r, v) is out else False if g and v is plain else None, R, f"{name}: the output array is returned", e.loc, "returns " + show(v, 3))


def r_torch(ctx):
    R = "torch"
    r = ctx.run("backends.torch.einsum", public=True, opaque=frozenset({"backends.torch._get_torch_and_device", "parser.convert_to_valid_einsum_chars"}))

    def find(r):
        if "out" in r.params:
            return r.params["out"]
        k = r.params.get("kwargs")
        for e in r.events:
            if e.kind == "mutate" and k is not None and same_entry(e.obj, k, "out"):
                return e.obj
        if k is not None:
            return mk("get", k, const("out"), NONE)
        return None
    filled(ctx, R, "einsum", "backends.torch.einsum", r, "out", find=find)


def check(ctx):
    ctx.rule("contract", r_entry)
    ctx.rule("executor", r_executor)
    ctx.rule("einsum call", r_einsum)
    ctx.rule("expression", r_expression)
    ctx.rule("torch", r_torch)
