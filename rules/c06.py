"""C06: planner and executor refer to the same operands, in the same order, at every step."""
import itertools

from sa.engine import is_call, mcall
from sa.kit import Undecided, numeval, numleaf, phis, show, strip, truth_of
from sa.terms import FALSE, NONE, TRUE, const, contains, cval, is_const, mk, subst, subterms
from .common import atoms_of, cases
from .plan import CC_OPAQUE, CP_OPAQUE, Exec, FC, Plan, order_of

DESC = ("Lock-step analysis of parallel lists: the per-iteration update of every list the planner keeps (index strings, index sets, shapes) and of the "
        "executor's operand list is compared: same positions, removed from the highest down, one result appended at the end. The step record "
        "written by the planner is matched field by field with what the executor reads.")


def ctxs(ctx):
    pl = Plan(ctx)
    return pl, Exec(ctx, pl)


def loop_of(r, e):
    lid = e.loops[0][0]
    return r.eng.loops[lid]


def update(step, m):
    """(positions, appended) of an update `take the positions out, append one`; None if of another form"""
    if step.op == "append" and step.a[0].op == "dropall" and step.a[0].a[0] is m:
        return "append", step.a[0].a[1], step.a[1]
    if step.op in ("inserted", "insert") and contains(step, lambda u: u.op == "dropall" and u.a[0] is m):
        return "insert", next(u for u in subterms(step) if u.op == "dropall").a[1], step.a[-1]
    if step.op == "dropall" and step.a[0] is m:
        return "none", step.a[1], None
    if step.op == "add" and step.a[0].op == "dropall" and step.a[0].a[0] is m and step.a[1].op in ("lst", "tup") and len(step.a) == 2 and len(step.a[1].a) == 1:
        return "append", step.a[0].a[1], step.a[1].a[0]
    if step.op == "add" and step.a[-1].op == "dropall" and step.a[-1].a[0] is m:
        return "insert", step.a[-1].a[1], None
    return None


def lists(pl):
    """{role: (mu, init alternatives, step)} of the planner's loop-carried lists"""
    lp = loop_of(pl.r, pl.fce)
    out = {}
    for m, st in lp.step.items():
        kind, k = pl.r.eng.muinfo[m]
        ini = lp.init[m]
        if kind == "heap" and k.op == "phi":
            alts = []
            for lits, x in cases(k):
                alts.append(pl.r.eng.freeze(lp_entry(pl, lp, x), pl.r.state))
        else:
            alts = [v for _, v in cases(pl.r.eng.freeze(ini, pl.r.state))]
        out[m] = (alts, st)
    return lp, out


def lp_entry(pl, lp, x):
    return x


def classify(pl, m, st):
    """'terms' / 'shapes' / 'sets' / None by what is appended"""
    if st.op == "idx" and st.a[0] is pl.fc and is_const(st.a[1], 1):
        return "sets"
    u = update(st, m)
    if u is None:
        return None
    x = u[2]
    if x is None:
        return "unknown"
    if any(is_call(y, "parser.find_output_shape") for y in subterms(x)) and (is_call(x, "parser.find_output_shape") or strip(x) is not x):
        return "shapes"
    if is_call(x, "parser.find_output_shape"):
        return "shapes"
    return "terms"


def r_lists(ctx):
    R = "planner lists"
    pl, ex = ctxs(ctx)
    lp, ls = lists(pl)
    seen = {}
    fcpos = order_of(pl.fc.a[1][0])[1]
    for m, (alts, st) in ls.items():
        c = classify(pl, m, st)
        if c in (None, "unknown"):
            if c == "unknown":
                ctx.unk(R, "list", pl.where, show(st, 4))
            continue
        seen[c] = m
        if c == "sets":
            ctx.ok(R, "index sets: replaced by the remaining sets of the step", pl.fce.loc)
            continue
        how, pos, x = update(st, m)
        o, b = order_of(pos)
        ctx.put(None if o is None else o == "desc", R, f"{c}: taken out from the highest position down", pl.where,
                f"the positions are taken in {'ascending' if o == 'asc' else 'the given'} order, which shifts the later ones")
        ctx.put(None if o is None else b is fcpos, R, f"{c}: the positions of the step", pl.where, "positions " + show(pos, 4))
        ctx.put(how == "append", R, f"{c}: the result goes to the end", pl.where, "the result is not appended at the end, where the paths expect it")
    for c in ("terms", "shapes", "sets"):
        if c not in seen:
            ctx.unk(R, f"{c}: followed through the loop", pl.where, "no such list recognised")
    # find_contraction itself
    r = ctx.run(FC, public=True)
    fn = ctx.p.fn(FC)
    pops = [e for e in r.events if e.kind == "popseq"]
    for e in pops:
        o, b = order_of(e.positions)
        ctx.put(None if o is None else o == "desc", R, "find_contraction: taken out from the highest position down", e.loc, "positions are not in descending order")
        ctx.put(True if strip(b) is r.params[fn.params()[0]] else None, R, "find_contraction: the positions given", e.loc, show(e.positions, 3))
    if not pops:
        ctx.unk(R, "find_contraction: positions", fn.loc, "no recognised removal of positions")
    # the remaining sets it hands back: the result last
    for e in r.events:
        if e.kind != "return" or e.value.op != "tup" or len(e.value.a) != 4:
            continue
        rem = r.eng.freeze(e.value.a[1], r.state)
        while rem.op == "esc":
            rem = rem.a[0]
        new = r.eng.freeze(e.value.a[0], r.state)
        ok = None
        if rem.op == "append":
            ok = True if rem.a[1] is new else None
        elif rem.op in ("inserted", "insert"):
            ok = False
        elif rem.op == "add" and len(rem.a) == 2:
            if rem.a[1].op in ("lst", "tup"):
                ok = True if rem.a[1].a == (new,) else None
            elif rem.a[0].op in ("lst", "tup") and rem.a[0].a == (new,):
                ok = False
        ctx.put(ok, R, "find_contraction: the result is listed last", e.loc, "the sets handed on are " + show(rem, 4))
    # initial contents describe the operands in order
    P = next(iter([u for u in subterms(pl.tup) if is_call(u, "parser.parse_einsum_input")]), None)
    if P is None:
        raise Undecided("parse_einsum_input not called")
    for c, m in seen.items():
        for a in ls[m][0]:
            s = strip(a.a[0] if a.op == "esc" else a)
            if c == "terms":
                b = mcall(s, "split")
                ok = b is mk("idx", P, const(0)) and s.a[1] and is_const(s.a[1][0], ",")
                ctx.put(True if ok else None, R, "terms: start as the input terms in order", pl.where, show(a, 4))
            elif c == "sets":
                ok = s.op == "comp" and s.a[3] is TRUE and len(s.a[2]) == 1 and is_call(s.a[1], "builtins.frozenset", "builtins.set") and s.a[1].a[1][0] is mk("elem", s.a[2][0], 0)
                ctx.put(True if ok else None, R, "sets: start as the sets of the input terms in order", pl.where, show(a, 4))
            elif c == "shapes":
                ops = mk("idx", P, const(2))
                if s.op == "comp" and len(s.a[2]) == 1:
                    el = mk("elem", s.a[2][0], 0)
                    src = s.a[2][0]
                    o, b = order_of(src)
                    ok = s.a[3] is TRUE and is_call(s.a[1], "parser.get_shape") and s.a[1].a[1][:1] == (el,) and strip(b) is ops
                else:
                    o, b = order_of(s)
                    ok = b is not None and strip(b) is ops
                ctx.put(None if not ok else o == "raw", R, "shapes: start as the shapes of the operands in order", pl.where,
                        "the shapes are listed in another order than the terms: " + show(a, 4) if ok else show(a, 4))


def r_record(ctx):
    R = "step record"
    pl, ex = ctxs(ctx)
    where = pl.rec.loc
    eq = pl.field("einsum")
    if eq.op != "add" or not any(is_const(x, "->") for x in eq.a):
        raise Undecided("equation " + show(eq, 4))
    k = next(i for i, x in enumerate(eq.a) if is_const(x, "->"))
    lhs, rhs = eq.a[:k], eq.a[k + 1:]
    if len(lhs) != 1 or lhs[0].op != "join" or not is_const(lhs[0].a[0], ",") or len(rhs) != 1:
        raise Undecided("equation " + show(eq, 5))
    seq = lhs[0].a[1]
    flip = False
    while True:
        if is_call(seq, "builtins.reversed"):
            seq, flip = seq.a[1][0], not flip
        elif is_call(seq, "builtins.list", "builtins.tuple") and len(seq.a[1]) == 1:
            seq = seq.a[1][0]
        elif seq.op == "idx" and seq.a[1].op == "slice" and is_const(seq.a[1].a[2], -1):
            seq, flip = seq.a[0], not flip
        elif is_call(seq, "builtins.sorted"):
            ctx.bad(R, "the equation lists the operands in the order the executor takes them", where, "the terms of the equation are sorted, the operands are not")
            return
        else:
            break
    if seq.op != "comp" or seq.a[1].op != "take":
        raise Undecided("equation terms " + show(seq, 4))
    o1, b1 = order_of(seq.a[2][0])
    if flip:
        o1 = {"desc": "asc", "asc": "desc"}.get(o1)
    rec = pl.field("inds")
    o2, b2 = order_of(rec)
    # the executor
    pops = [e for e in ex.r.events if e.kind == "popseq"]
    if len(pops) != 1:
        raise Undecided(f"{len(pops)} operand removals in the executor")
    e = pops[0]
    o3, b3 = order_of(e.positions)
    if ex.role(b3) != "inds":
        ctx.put(False if ex.role(b3) not in (None, "?") else None, R, "the executor takes the operands of the step", e.loc, "positions taken: " + show(e.positions, 4))
        return
    eff = o2 if o3 == "raw" else {"rawrev": {"desc": "asc", "asc": "desc"}.get(o2)}.get(o3, o3)
    if None in (o1, o2, eff) or b1 is not b2:
        raise Undecided(f"orders {o1} {o2} {o3}")
    ctx.put(eff == "desc", R, "the executor takes operands out from the highest position down", e.loc, f"positions are taken in {eff} order")
    # the operand list handed on may be reversed again
    got = None
    for c in ex.calls("contract._einsum"):
        for a in c.args:
            if a.op == "star":
                got = (c, a.a[0])
    if got is None:
        raise Undecided("einsum call of the executor")
    c, s = got
    f2 = False
    while True:
        if is_call(s, "builtins.reversed"):
            s, f2 = s.a[1][0], not f2
        elif is_call(s, "builtins.list", "builtins.tuple") and len(s.a[1]) == 1:
            s = s.a[1][0]
        elif s.op == "idx" and s.a[1].op == "slice" and is_const(s.a[1].a[2], -1):
            s, f2 = s.a[0], not f2
        else:
            break
    if s.op != "comp" or s.a[1].op != "take":
        raise Undecided("operands " + show(s, 4))
    o4, b4 = order_of(s.a[2][0])
    if ex.role(b4) != "inds":
        raise Undecided("operands " + show(s, 4))
    eff4 = o2 if o4 == "raw" else {"rawrev": {"desc": "asc", "asc": "desc"}.get(o2)}.get(o4, o4)
    if f2:
        eff4 = {"desc": "asc", "asc": "desc"}.get(eff4)
    ctx.put(None if eff4 is None else eff4 == o1, R, "the equation lists the operands in the order the executor takes them", c.loc,
            f"the equation lists terms by {o1}ending position, the executor passes operands by {eff4}ending position")
    a0 = c.args[0] if c.args else None
    rl = ex.role(a0) if a0 is not None else None
    ctx.put(True if rl == "einsum" else False if rl is not None else None, R, "the executor evaluates the recorded equation", c.loc, "evaluated: " + (show(a0, 3) if a0 is not None else "nothing"))
    # the result string is the one recorded for later steps and used for its shape
    lp, ls = lists(pl)
    for m, (alts, st) in ls.items():
        cl = classify(pl, m, st)
        if cl == "terms":
            u = update(st, m)
            ctx.put(True if u[2] is rhs[0] else None, R, "the result is listed for later steps under the indices it is computed with", where,
                    "listed " + show(u[2], 4) + ", computed " + show(rhs[0], 4))
        elif cl == "shapes":
            u = update(st, m)
            f = next((x for x in subterms(u[2]) if is_call(x, "parser.find_output_shape")), None)
            if f is not None and len(f.a[1]) >= 3:
                ctx.put(True if f.a[1][2] is rhs[0] else None, R, "the result's shape is listed for its own indices", where, "shape for " + show(f.a[1][2], 4))
    ctx.P = rhs[0]


def r_result(ctx):
    R = "result of a step"
    pl, ex = ctxs(ctx)
    eq = pl.field("einsum")
    rhs = eq.a[-1]
    P = next(u for u in subterms(pl.tup) if is_call(u, "parser.parse_einsum_input"))
    out = mk("idx", P, const(1))
    path = pl.fce.loops[0][1]
    if is_call(path, "builtins.enumerate"):
        path = path.a[1][0]

    def leaf(pos, n):
        def val(t):
            if t.op == "pos":
                return pos
            if is_call(t, "builtins.len") and len(t.a[1]) == 1:
                if strip(t.a[1][0]) is strip(path):
                    return n
                # number of terms left after this step
                x = t.a[1][0]
                if x.op == "append" or x.op == "dropall":
                    return None
            return None
        return numleaf(val)
    for n in (1, 2, 3):
        for pos in range(n):
            v = rhs
            try:
                while v.op == "phi":
                    v = v.a[1] if truth_of(v.a[0], None, leaf(pos, n)) else v.a[2]
            except Undecided as u:
                ctx.unk(R, f"step {pos + 1} of {n}", pl.rec.loc, str(u))
                continue
            if pos == n - 1:
                ctx.put(True if v is out else None if not _perm(pl, v) else False, R, f"step {pos + 1} of {n}: the last result has the requested order", pl.rec.loc,
                        "the last step produces " + show(v, 4))
            else:
                other = contains(v, lambda u: u.op == "idx" and u.a[0] is pl.fc and u.a[1].op == "const" and cval(u.a[1]) != 0) and not contains(
                    v, mk("idx", pl.fc, const(0)))
                ctx.put(True if _perm(pl, v) else False if v is out or other else None, R, f"step {pos + 1} of {n}: exactly the indices still needed", pl.rec.loc,
                        "an intermediate step produces " + show(v, 4))


def _perm(pl, v):
    if v.op == "join" and is_const(v.a[0], "") and len(v.a) == 2:
        s = v.a[1]
        while is_call(s, "builtins.sorted", "builtins.list", "builtins.tuple", "builtins.reversed") and s.a[1]:
            s = s.a[1][0]
        if s is mk("idx", pl.fc, const(0)):
            return True
        if s.op == "comp" and len(s.a[2]) == 1 and s.a[1] is mk("elem", s.a[2][0], 0):
            c = s.a[3]
            return c.op == "cmp" and c.a[0] == "in" and c.a[1] is s.a[1] and c.a[2] is mk("idx", pl.fc, const(0))
    return False


def r_executor(ctx):
    R = "executor"
    pl, ex = ctxs(ctx)
    r = ex.r
    ops = ex.p.get(ctx.p.fn("contract._core_contract").params()[0])
    lp = None
    for e in r.events:
        if e.kind == "popseq" and e.loops:
            lp = r.eng.loops[e.loops[0][0]]
            obj, content = e.obj, e.content
            break
    if lp is None:
        raise Undecided("no step loop")
    m = content
    st = lp.step.get(m)
    if st is None:
        raise Undecided("operand list")
    ini = r.eng.freeze(lp.init[m], r.state)
    ctx.put(True if strip(lp.init[m]) is ops or strip(ini) is ops or contains(lp.init[m], ops) else None, R, "starts from the operands given", ex.where, show(lp.init[m], 4))
    good = 0
    for lits, v in cases(st):
        u = update(v, m)
        if u is None:
            ctx.unk(R, "operand list update", ex.where, show(v, 4))
            continue
        good += 1
        ctx.put(u[0] == "append", R, "the result of a step goes to the end of the operands", ex.where, "the result is not appended at the end")
    # steps are taken in the order recorded, all of them
    it = next(e.loops[0][1] for e in r.events if e.kind == "popseq" and e.loops)
    src = it.a[1][0] if is_call(it, "builtins.enumerate") else it
    ctx.put(True if src is ex.steps else None, R, "every recorded step, in order", ex.where, "iterates over " + show(it, 4))
    # pre-pass over constants
    for e in r.events:
        if e.kind != "return" or not e.loops or e.fq != "contract._core_contract":
            continue
        v = e.value
        if v.op != "tup" or len(v.a) != 2:
            ctx.unk(R, "constant pre-pass", e.loc, show(v, 3))
            continue
        v0, v1 = r.eng.freeze(v.a[0], r.state), v.a[1]
        b = v1.a[0] if v1.op == "idx" and v1.a[1].op == "slice" else None
        if b is ex.steps:
            lo, hi, stp = v1.a[1].a
            okk = None
            if lo.op == "pos":
                okk = True
            elif lo.op == "add" and any(x.op == "pos" for x in lo.a) or lo.op == "const" or lo.op == "bin":
                okk = False
            if not is_const(hi, None):
                okk = False if okk is not None else None
            ctx.put(okk, R, "constant pre-pass: hands on exactly the steps not yet done", e.loc, "hands on " + show(v1, 4))
        else:
            ctx.unk(R, "constant pre-pass: hands on exactly the steps not yet done", e.loc, show(v1, 4))
        drops = contains(v.a[0], lambda u: u.op == "dropall") or contains(v0, lambda u: u.op == "dropall" and u.a[0] is m)
        ctx.put(not drops, R, "constant pre-pass: operands are complete", e.loc, "the operands of the interrupted step have already been taken out")
        # stops exactly if an operand of the step is unknown
        evp = ex.p.get("evaluate_constants")
        fact = e.facts[-1] if e.facts else TRUE
        hit = [s for f in e.facts for s in subterms(f) if s.op == "any"]
        okk = None
        for s in hit:
            c, itx = s.a[0], s.a[1]
            if c.op == "cmp" and c.a[0] == "is" and c.a[2] is NONE and ex.role(strip(itx)) == "inds":
                okk = True
            elif ex.role(strip(itx)) == "inds" and c.op == "not":
                okk = False
        ctx.put(okk, R, "constant pre-pass: stops at the first step with an operand missing", e.loc, "condition " + show(fact, 5))
    for e in r.events:
        if e.kind == "return" and not e.loops and e.fq == "contract._core_contract":
            v = e.value
            if v.op == "idx" and v.a[1].op == "const":
                ctx.put(cval(v.a[1]) in (0, -1), R, "the last remaining operand is the result", e.loc, "returns entry " + show(v.a[1]))


def r_handover(ctx):
    R = "handover"
    # contract_path(einsum_call=True) returns (operands, steps)
    pl = Plan(ctx)
    P = next(u for u in subterms(pl.tup) if is_call(u, "parser.parse_einsum_input"))
    order = None
    for e in pl.r.events:
        if e.kind == "return" and e.value.op == "tup" and len(e.value.a) == 2 and strip(e.value.a[0]) is mk("idx", P, const(2)):
            order = ("operands", "steps")
        elif e.kind == "return" and e.value.op == "tup" and len(e.value.a) == 2 and strip(e.value.a[1]) is mk("idx", P, const(2)):
            order = ("steps", "operands")
    if order is None:
        raise Undecided("what contract_path hands to contract")
    r = ctx.run("contract.contract", public=True, opaque=frozenset({"contract.contract_path", "contract._core_contract", "contract.ContractExpression", "contract._einsum", "contract.parse_backend"}))
    for e in r.events:
        if e.kind != "call" or e.callee.op not in ("func", "class") or e.callee.a[0] not in ("contract._core_contract", "contract.ContractExpression"):
            continue
        fq = e.callee.a[0]
        want = ("operands", "steps") if fq.endswith("_core_contract") else (None, "steps")
        for k, w in enumerate(want):
            if w is None or k >= len(e.args):
                continue
            a = strip(e.args[k])
            if a.op == "idx" and is_call(a.a[0], "contract.contract_path") and a.a[1].op == "const":
                j = cval(a.a[1])
                ctx.put(j in (0, 1) and order[j] == w, R, f"{fq.split('.')[-1]}: {w}", e.loc, f"given entry {j} of the plan")
            else:
                ctx.unk(R, f"{fq.split('.')[-1]}: {w}", e.loc, show(a, 3))


def check(ctx):
    ctx.rule("planner lists", r_lists)
    ctx.rule("step record", r_record)
    ctx.rule("result of a step", r_result)
    ctx.rule("executor", r_executor)
    ctx.rule("handover", r_handover)
