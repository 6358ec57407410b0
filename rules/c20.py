"""C20: worker pools: created on request, shut down by who created them, never a caller's."""
import ast
import itertools

from sa.engine import is_call
from sa.kit import Undecided, pick, show, strip, truth_of
from sa.src import AnalysisBroken
from sa.terms import FALSE, NONE, TRUE, contains, mk, subterms
from .c19 import CALL, consumer, run_call

DESC = ("Typestate analysis of the worker pool an optimizer uses: the assignment of the setting, the deletion of the object and the end of a search are simulated abstractly, event by event, for every kind of setting (off, on, a number of workers, an executor "
        "of the caller) and every state of the pool (none yet, none, own, the caller's); a pool is shut down exactly by the object that created it and exactly once it is replaced or the object goes.")

CLS = "path_random.RandomOptimizer"
KINDS = ("off", "on", "int", "decimal", "executor")
INTY = {"builtins.int": ("on", "off", "int"), "builtins.bool": ("on", "off"), "decimal.Decimal": ("decimal",), "numbers.Number": ("on", "off", "int", "decimal"), "numbers.Integral": ("on", "off", "int"),
        "concurrent.futures.Executor": ("executor",), "builtins.float": ()}


def types_of(t):
    xs = list(t.a) if t.op in ("tup", "lst") else [t]
    out = set()
    for x in xs:
        if x.op == "ext" and x.a[0] in INTY:
            out |= set(INTY[x.a[0]])
        else:
            return None
    return out


def param_leaf(p, kind):
    def leaf(c, env):
        if c.op == "cmp" and c.a[0] in ("is", "eq") and p in (c.a[1], c.a[2]):
            o = c.a[2] if c.a[1] is p else c.a[1]
            if o is TRUE:
                return kind == "on"
            if o is FALSE:
                return kind == "off"
            if o is NONE:
                return False
            return None
        if c.op == "isinstance" and c.a[0] is p or is_call(c, "builtins.isinstance") and c.a[1][0] is p:
            ts = types_of(c.a[1] if c.op == "isinstance" else c.a[1][1])
            return None if ts is None else kind in ts
        if (c.op == "hasattr" and c.a[0] is p and c.a[1] in ("submit", "map", "shutdown")) or is_call(c, "builtins.hasattr") and c.a[1][0] is p:
            return kind == "executor"
        if c is p:
            return kind != "off"
        if is_call(c, "builtins.callable") and c.a[1][0] is p:
            return False
        return None
    return leaf


class Sim:
    """abstract run of an event stream: state = {attr: value}, values 'old', 'none', 'own', 'user', True, False, unset"""

    def __init__(self, s, ex, flag, leaf):
        self.s, self.ex, self.flag, self.leaf0 = s, ex, flag, leaf
        self.shut = []

    def flagval(self, t, st):
        """value of a term reading the flag or the executor in state st, or None"""
        if t.op == "attr" and t.a[0] is self.s:
            return st.get(t.a[1])
        if t.op == "getattr" and t.a[0] is self.s:
            v = st.get(t.a[1], "unset")
            if v == "unset":
                d = t.a[2]
                return True if d is TRUE else False if d is FALSE else "none" if d is NONE else None
            return v
        return None

    def run(self, events, start, stop_on_return=True):
        st = dict(start)
        init = dict(start)

        def leaf(c, env):
            v = self.leaf0(c, env)
            if v is not None:
                return v
            if c.op in ("hasattr",) and c.a[0] is self.s:
                return init.get(c.a[1] if isinstance(c.a[1], str) else c.a[1].a[0], "unset") != "unset"
            if c.op == "cmp" and c.a[0] == "is":
                for x, y in (c.a[1:], c.a[1:][::-1]):
                    v = self.flagval(x, init)
                    if v is not None:
                        if v == "unset":
                            raise Crash(f"{show(x, 3)} is not set yet")
                        if y is NONE:
                            return v == "none"
                        if y is TRUE:
                            return v is True
                        if y is FALSE:
                            return v is False
            v = self.flagval(c, init)
            if v is not None:
                if v == "unset":
                    raise Crash(f"{show(c, 3)} is not set yet")
                return v not in (False, "none")
            return None
        for e in events:
            try:
                if not all(truth_of(f, None, leaf) for f in e.facts):
                    continue
            except Crash:
                raise
            if e.kind == "return" and stop_on_return and not e.loops:
                break
            if e.kind == "setattr" and e.obj is self.s:
                v = pick(e.value, leaf)
                st[e.name] = self.value(v, init)
            elif e.kind == "call" and e.name == "shutdown":
                w = pick(e.recv, leaf)
                self.shut.append((e, self.value(w, init), dict(st)))
        return st

    def value(self, v, init):
        if v is TRUE:
            return True
        if v is FALSE:
            return False
        if v is NONE:
            return "none"
        if v.op == "param":
            return "user"
        x = self.flagval(v, init)
        if x is not None:
            return x
        if v.op == "call":
            return "own"
        try:
            return truth_of(v, None, lambda c, env: self.leaf0(c, env))
        except Undecided:
            pass
        raise Undecided("value " + show(v, 4))


class Crash(Exception):
    pass


def roles(ctx):
    """(attribute of the executor, attribute telling who owns it)"""
    r = ctx.run(CLS + ".__del__") if CLS + ".__del__" in ctx.p.fns else None
    for rr in [r, ctx.run(CLS + ".parallel.setter")]:
        if rr is None:
            continue
        s = rr.params["self"]
        for e in rr.events:
            if e.kind == "call" and e.name == "shutdown" and e.recv.op == "attr" and e.recv.a[0] is s:
                ex = e.recv.a[1]
                for f in e.facts:
                    for x in subterms(f):
                        if x.op in ("attr", "getattr") and x.a[0] is s and x.a[1] != ex:
                            return ex, x.a[1]
                return ex, None
    return None, None


# state before: (name, executor, flag)
BEFORE = (("no setting yet", "unset", "unset"), ("no pool", "none", False), ("own pool", "old-own", True), ("the caller's executor", "old-user", False))


def r_setting(ctx):
    R = "assigning the setting"
    q = CLS + ".parallel.setter"
    if q not in ctx.p.fns:
        raise Undecided("the setting `parallel` has no setter")
    r = ctx.run(q)
    s, p = list(r.params.values())[:2]
    ex, flag = roles(ctx)
    loc = ctx.p.fns[q].loc
    if ex is None:
        sh = [e for e in r.events if e.kind == "call" and e.name == "shutdown"]
        ctx.bad(R, "an own pool that is replaced is shut down", loc, "the setter never shuts one down") if not sh else ctx.unk(R, "pool", loc)
        return
    if flag is None:
        ctx.unk(R, "ownership", loc, "no attribute tells who owns the pool")
        return
    flagset0 = before_setting(ctx, flag)
    for (bname, e0, f0), kind in itertools.product(BEFORE, KINDS):
        if e0 == "unset":
            f0 = flagset0
        sim = Sim(s, ex, flag, param_leaf(p, kind))
        nm = f"{kind} after {bname}"
        try:
            st = sim.run(r.events, {ex: e0, flag: f0})
        except Crash as c:
            ctx.put(False if e0 == "unset" else None, R, nm, loc, f"reads an attribute before it exists: {c}")
            continue
        except Undecided as u:
            ctx.unk(R, nm, loc, str(u))
            continue
        shut = [w for e, w, _ in sim.shut]
        msg = None
        if any(w in ("old-user", "user") for w in shut):
            msg = "the caller's executor is shut down"
        elif e0 == "old-own" and "old-own" not in shut:
            msg = "the pool created before is neither used nor shut down"
        elif e0 != "old-own" and shut:
            msg = f"shuts down {shut[0]}"
        elif "own" in shut:
            msg = "the new pool is shut down at once"
        if msg:
            ctx.bad(R, nm + ": shut down", sim.shut[0][0].loc if sim.shut else loc, msg)
        else:
            ctx.ok(R, nm + ": shut down", loc)
        want = {"off": "none", "on": "own", "int": "own", "decimal": "own", "executor": "user"}[kind]
        got = st.get(ex, e0)
        ctx.put(got == want, R, nm + ": executor", loc, f"the executor is then {got}, expected {want}")
        if got in ("own", "user", "none"):
            fl = st.get(flag)
            ok = fl is (got == "own") or (got == "none" and fl in (False, "unset"))
            ctx.put(ok if fl in (True, False, "unset") else None, R, nm + ": ownership", loc, "the pool is " + ("not " if got == "own" else "") + "taken for the optimizer's own")
    # number of workers
    for kind in ("on", "int", "decimal"):
        lf = param_leaf(p, kind)
        for e in r.events:
            if e.kind == "setattr" and e.name == ex:
                try:
                    if not all(truth_of(f, None, lambda c, v: lf(c, v)) for f in e.facts if contains(f, p)):
                        continue
                    v = pick(e.value, lf)
                except Undecided:
                    continue
                if v.op != "call" or v.a[0].op not in ("ext", "class"):
                    continue
                args = list(v.a[1]) + [x for k, x in v.a[2] if k == "max_workers"]
                nm = f"number of workers ({kind})"
                try:
                    args = [pick(a, lf) for a in args]
                except Undecided:
                    ctx.unk(R, nm, e.loc, show(v, 4))
                    continue
                if kind == "on":
                    ctx.put(True if not args or args[0] is NONE else False if contains(args[0], p) or args[0].op == "const" else None, R, nm, e.loc, f"`parallel=True` gives {show(v, 4)}")
                else:
                    a0 = strip(args[0], "builtins.int") if args else None
                    ctx.put(True if a0 is p else False if not args or a0.op == "const" else None, R, nm, e.loc, f"a number of workers gives {show(v, 4)}")
    # the getter returns what was set
    g = CLS + ".parallel"
    if g in ctx.p.fns:
        gr = ctx.run(g)
        gs = gr.params["self"]
        st = [e for e in r.events if e.kind == "setattr" and e.obj is s and gr.ret is mk("attr", gs, e.name)]
        if st:
            ctx.put(True if all(e.value is p and not e.facts for e in st) else None, R, "the setting reads back", st[0].loc, show(st[0].value, 3))


def before_setting(ctx, flag):
    """value of the flag when the constructor assigns the setting"""
    q = CLS + ".__init__"
    f = ctx.p.fns.get(q)
    if f is None:
        return "unset"
    for n in f.node.body:
        for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) and n.value is not None else []):
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                if t.attr == "parallel":
                    return cls_value(ctx, flag)
                if t.attr == flag:
                    return n.value.value if isinstance(n.value, ast.Constant) else "unset"
    return cls_value(ctx, flag)


def cls_value(ctx, flag):
    for n in ctx.p.classes[CLS].node.body:
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, ast.Name) and t.id == flag and isinstance(n.value, ast.Constant):
                    return n.value.value
    return "unset"


def r_delete(ctx):
    R = "deleting the optimizer"
    q = CLS + ".__del__"
    ex, flag = roles(ctx)
    if q not in ctx.p.fns:
        src = ctx.p.classes[CLS].mod.src
        ctx.put(None if "finalize" in src or "atexit" in src else False, R, "the own pool is shut down", f"{ctx.p.classes[CLS].mod.rel}:{ctx.p.classes[CLS].node.lineno}", "nothing shuts it down when the object goes")
        return
    r = ctx.run(q)
    s = r.params["self"]
    if ex is None or flag is None:
        sh = [e for e in r.events if e.kind == "call" and e.name == "shutdown"]
        if sh and not sh[0].facts:
            ctx.bad(R, "only the own pool is shut down", sh[0].loc, "whatever executor is in use is shut down, also the caller's")
        else:
            ctx.unk(R, "pool", r.fn.loc if hasattr(r, "fn") else q, "ownership not recognised")
        return
    for bname, e0, f0 in BEFORE:
        sim = Sim(s, ex, flag, lambda c, v: None)
        nm = bname
        try:
            sim.run(r.events, {ex: e0, flag: f0})
        except Crash as c:
            ctx.put(None, R, nm, ctx.p.fns[q].loc, str(c))
            continue
        except Undecided as u:
            ctx.unk(R, nm, ctx.p.fns[q].loc, str(u))
            continue
        shut = [w for e, w, _ in sim.shut]
        want = ["old-own"] if e0 == "old-own" else []
        ctx.put(shut == want, R, nm, ctx.p.fns[q].loc, f"shuts down {shut or 'nothing'}")


def r_search(ctx):
    R = "during a search"
    ex, _ = roles(ctx)
    if ex is None:
        ctx.unk(R, "pool", "path_random.py")
        return
    # trials go to that executor
    for q, f in ctx.p.fns.items():
        if not q.startswith(CLS + "."):
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "submit":
                g = ctx.run(q)
                for e in g.events:
                    if e.kind == "call" and e.name == "submit" and e.fq == q:
                        ctx.put(True if e.recv is mk("attr", g.params["self"], ex) else None, R, "trials are submitted to the executor of the setting", e.loc, show(e.recv, 3))
                break
    r = run_call(ctx)
    s = r.params["self"]
    lid, it = consumer(ctx, r)
    lp = r.eng.loops[lid]
    own = [e for e in r.events if e.kind == "call" and e.name in ("shutdown",)]
    for e in own:
        ctx.bad(R, "the executor stays usable for later calls", e.loc, "a search shuts it down")
    if not own:
        ctx.ok(R, "the executor stays usable for later calls", CALL)
    can = [e for e in r.events if e.kind == "call" and e.name == "cancel"]
    nm = "pending trials are cancelled when a search ends"
    if not can:
        ctx.put(False if lp.exits else True, R, nm, CALL, "nothing cancels them although the search may end early")
        return
    for e in can:
        inside = any(l == lid for l, _ in e.loops)
        if inside:
            ctx.unk(R, nm, e.loc, "cancelled inside the loop")
            continue

        def leaf(c, env):
            if c.op == "cmp" and c.a[0] == "is" and c.a[1] is mk("attr", s, ex) and c.a[2] is NONE:
                return False
            if c is mk("attr", s, ex):
                return True
            if any(x.op == "hasattr" and x.a[0] is s for x in subterms(c)):
                return True
            return None
        res = {}
        for timed, brk in ((False, False), (True, False), (True, True)):
            def leaf2(c, env):
                v = leaf(c, env)
                if v is not None:
                    return v
                if c.op == "any" and c.a[1] is lp.iter:
                    return brk
                if c.op == "cmp" and c.a[0] == "is" and c.a[1] is mk("attr", s, "max_time"):
                    return not timed
                return None
            try:
                res[timed, brk] = all(truth_of(f, None, leaf2) for f in e.facts)
            except Undecided as u:
                res[timed, brk] = None
                why = str(u)
        v = res[True, True]
        ctx.put(True if v else False if v is False else None, R, nm, e.loc, "not when the time limit ends the search" if v is False else why if v is None else "")
        # all of them
        if e.loops:
            l2 = r.eng.loops[e.loops[-1][0]]
            x = strip(l2.iter, "builtins.list", "builtins.tuple", "builtins.reversed", "builtins.iter")
            ctx.put(True if x.op == "attr" and x.a[0] is s and not l2.exits and e.recv is mk("elem", l2.iter, 0) else False if x.op == "slice" else None, R, "all pending trials are cancelled", e.loc, show(l2.iter, 4))
            # only when there are any: serial searches have no queue
            def leaf3(c, env):
                if c.op == "cmp" and c.a[0] == "is" and c.a[1] is mk("attr", s, ex) and c.a[2] is NONE:
                    return True
                if c is mk("attr", s, ex):
                    return False
                return leaf(c, env)
            try:
                reach = all(truth_of(f, None, leaf3) for f in e.facts)
            except Undecided:
                reach = None
            if x.op == "attr":
                qset = queue_always_set(ctx, x.a[1])
                ctx.put(True if reach is False or qset else False if reach else None, R, "a serial search has no queue to cancel", e.loc, f"reads {x.a[1]}, which a serial search never sets")


def queue_always_set(ctx, a):
    f = ctx.p.fns.get(CLS + ".__init__")
    for n in ast.walk(f.node):
        ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) and n.value is not None else []
        if any(isinstance(t, ast.Attribute) and t.attr == a for t in ts):
            return True
    return cls_value(ctx, a) != "unset"


def check(ctx):
    if CLS not in ctx.p.classes:
        raise AnalysisBroken(CLS + " is missing")
    ctx.rule("assigning the setting", r_setting)
    ctx.rule("deleting the optimizer", r_delete)
    ctx.rule("during a search", r_search)
