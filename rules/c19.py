"""C19: a random search runs the same numbered, reproducible trials whether it is serial or parallel."""
import ast
import itertools

from sa.engine import is_call, mcall
from sa.graph import closure
from sa.kit import Undecided, numeval, numleaf, pick, show, strip, truth_of
from sa.src import AnalysisBroken
from sa.terms import NONE, cval, contains, is_const, mk, subterms
from .c13 import targ
from .common import atoms_of, call_arg, cases

DESC = ("Sibling agreement and token conservation: the serial and the parallel way of running trials are both reduced to (numbers, function, arguments) and compared, the parallel generator is a queue whose pushes, pops and yields are balanced per "
        "iteration and which is drained in order, the numbers are evaluated for several histories, and a trial's result is shown to depend on its number and arguments only (seeded before any draw, no other source of randomness or shared state reachable).")

CALL = "path_random.RandomOptimizer.__call__"
SETUP = "path_random.RandomOptimizer.setup"
OPQ = {SETUP, "paths.ssa_greedy_optimize", "path_random.ssa_path_compute_cost", "paths.ssa_to_linear"}


def callee(e):
    return e.callee.a[0] if e.callee.op in ("func", "ext") else None


def run_call(ctx):
    return ctx.run(CALL, public=True, opaque=OPQ)


def setup_part(t, k):
    """t is element k of the value of self.setup(...)"""
    return t.op == "idx" and is_const(t.a[1], k) and mcall(t.a[0], "setup") is not None


def trial_call(args):
    """arguments are (number, *arguments of setup) -> number term or None"""
    if len(args) == 2 and args[1].op == "star" and setup_part(strip(args[1].a[0], "builtins.tuple", "builtins.list"), 1):
        return args[0]
    return None


def consumer(ctx, r):
    """loop over the results: the one storing the costs"""
    s = r.params["self"]
    for e in r.events:
        if e.kind == "mutate" and e.op == "append" and e.obj is mk("attr", s, "costs") and e.loops:
            return e.loops[-1]
    raise Undecided("the loop that records the costs of the trials was not found")


def r_trials(ctx):
    R = "trials"
    r = run_call(ctx)
    s = r.params["self"]
    lid, it = consumer(ctx, r)
    lp = r.eng.loops[lid]
    alts = cases(lp.iter)
    n = 0
    for lits, x in alts:
        par = None
        for l in lits:
            c, v = l if isinstance(l, tuple) else (l, True)
            if c.op == "cmp" and c.a[0] == "is" and c.a[2] is NONE:
                par = not v
            elif c.op == "not" and c.a[0].op == "cmp" and c.a[0].a[0] == "is":
                par = v
        x = strip(x, "builtins.iter", "builtins.list", "builtins.tuple")
        if x.op == "comp" and len(x.a[2]) == 1:
            n += 1
            if not is_const(x.a[3], True):
                ctx.unk(R, "serial: every number is tried", CALL, show(x.a[3], 4))
            seq = x.a[2][0]
            body = x.a[1]
            num = trial_call(body.a[1]) if body.op == "call" else None
            ok = num is not None and setup_part(body.a[0], 0)
            ctx.put(ok or None, R, "serial: trial function of setup with its arguments", lp.loc if hasattr(lp, "loc") else CALL, show(body, 5))
            if num is not None:
                same(ctx, R, "serial: the number of the trial", num, mk("elem", seq, 0), CALL)
            numbers(ctx, R, "serial", seq, s)
        elif x.op == "call":
            n += 1
            generator(ctx, R, r, x, s)
        else:
            ctx.unk(R, "results", CALL, show(x, 4))
    ctx.put(True if n >= 2 else None, R, "serial and parallel results", CALL, f"{n} of two ways found")
    # every result is consumed
    exits(ctx, R, lp, s)


def same(ctx, R, name, t, want, loc):
    if t is want:
        ctx.ok(R, name, loc)
    elif t.op == "const" or not contains(t, want):
        ctx.bad(R, name, loc, f"it is {show(t, 4)} for every trial")
    else:
        # some function of the number: must be the number itself
        try:
            vals = [numeval(t, lambda q, k=k: k if q is want else None) for k in (0, 1, 2, 7)]
        except Undecided:
            vals = None
        ctx.put(None if vals is None else vals == [0, 1, 2, 7], R, name, loc, f"trial 0, 1, 2, 7 gets {vals}: {show(t, 4)}")


def exits(ctx, R, lp, s):
    mt = mk("attr", s, "max_time")
    for c in lp.exits:
        def leaf(q, env):
            if q.op == "cmp" and q.a[0] == "is" and q.a[1] is mt and q.a[2] is NONE:
                return True
            if q is mt:
                return False
            return None
        try:
            v = truth_of(c, None, leaf)
        except Undecided:
            v = None
        ctx.put(True if v is False else False if v else None, R, "without a time limit all trials are run", CALL, "leaves the loop when " + show(c, 5))
    if not lp.exits:
        ctx.ok(R, "without a time limit all trials are run", CALL)


def numbers(ctx, R, who, seq, s):
    seq = strip(seq, "builtins.list", "builtins.tuple", "builtins.iter")
    if not is_call(seq, "builtins.range"):
        ctx.unk(R, f"{who}: numbers of the trials", CALL, show(seq, 4))
        return
    a = list(seq.a[1])
    costs = mk("attr", s, "costs")

    def val(st, n, k):
        def f(q):
            if is_call(q, "builtins.len") and q.a[1][0] in (costs, mk("attr", s, "sizes")):
                return n
            if q is mk("attr", s, "max_repeats"):
                return k
            if q is mk("attr", s, "_repeats_start"):
                return st
            return None
        return f
    start0 = start_value(ctx)
    bad, unk = [], None
    for n, k in itertools.product((0, 1, 5), (1, 3, 4)):
        for st in ([start0] if start0 is not None else [0]):
            try:
                xs = [numeval(x, val(st, n, k)) for x in a]
            except Undecided as u:
                unk = str(u)
                break
            got = list(range(*xs))
            if got != list(range(st + n, st + n + k)):
                bad.append(f"after {n} trials a call for {k} runs {got}")
    if unk:
        ctx.unk(R, f"{who}: numbers of the trials", CALL, unk)
    else:
        ctx.put(not bad, R, f"{who}: numbers of the trials", CALL, "; ".join(bad[:2]))
    if who == "serial":
        again(ctx, R, a, val, s)
        ctx.put(None if start0 is None else start0 == 0, R, "the first trial of an optimizer is number 0", CALL, f"it starts with {start0}")


def again(ctx, R, a, val, s):
    """the next call goes on where this one ended, whatever the call writes to the attributes the numbers are taken from"""
    r = run_call(ctx)
    used = {x.a[1] for t in a for x in subterms(t) if x.op == "attr" and x.a[0] is s} - {"costs", "sizes"}
    wr = [e for e in r.events if e.kind == "setattr" and e.obj is s and e.name in used]
    nm = "a later call continues with the next number"
    if not wr:
        other = [f for q, f in ctx.p.fns.items() if q.startswith("path_random.") and f.name not in ("__init__",) for n in ast.walk(f.node)
                 if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in used - {"max_repeats"}]
        ctx.put(None if other else True, R, nm, CALL, f"{sorted(used)} changes elsewhere")
        return
    for e in wr:
        for st, n, k in ((0, 0, 3), (0, 4, 2), (5, 1, 3)):
            try:
                new = numeval(e.value, val(st, n, k))
                st2 = new if e.name == "_repeats_start" else st
                got = numeval(a[0], val(st2, n + k, k)) if len(a) > 1 else 0
            except Undecided as u:
                ctx.unk(R, nm, e.loc, str(u))
                break
            if e.name != "_repeats_start":
                ctx.unk(R, nm, e.loc, f"the call changes {e.name}")
                break
            if got != st + n + k:
                ctx.put(False if not e.facts or all(len(e.facts) <= 1 for _ in e.facts) else None, R, nm, e.loc, f"after trials {st + n}..{st + n + k - 1} the next call starts with {got}")
                break
        else:
            ctx.ok(R, nm, e.loc)


def start_value(ctx):
    r = ctx.run("path_random.RandomOptimizer.__init__")
    s = r.params["self"]
    v = [e for e in r.events if e.kind == "setattr" and e.obj is s and e.name == "_repeats_start"]
    if v and v[-1].value.op == "const":
        return cval(v[-1].value)
    return None


def generator(ctx, R, r, x, s):
    """the parallel way: a generator method over (numbers, function, arguments)"""
    name = None
    c = x.a[0]
    if c.op == "func":
        name = c.a[0]
    elif c.op in ("attr", "meth", "bound"):
        cls = ctx.p.classes["path_random.RandomOptimizer"]
        m = ctx.p.find_method(cls, c.a[1] if isinstance(c.a[1], str) else None)
        name = m.fq if m else None
    if name is None or name not in ctx.p.fns:
        ctx.unk(R, "parallel: way of running", CALL, show(x, 4))
        return
    f = ctx.p.fns[name]
    # what is handed over
    roles = {}
    for p in f.params():
        if p == "self":
            continue
        a = call_arg(x, f, p, has_self=c.op != "func")
        if a is None:
            continue
        y = strip(a, "builtins.list", "builtins.tuple", "builtins.iter")
        if setup_part(y, 0):
            roles["fn"] = p
        elif setup_part(y, 1):
            roles["args"] = p
        elif is_call(y, "builtins.range"):
            roles["numbers"] = p
            numbers(ctx, R, "parallel", y, s)
    if len(roles) < 3:
        ctx.unk(R, "parallel: what is handed over", CALL, f"{show(x, 5)}: {sorted(roles)} recognised")
        return
    ctx.ok(R, "parallel: trial function of setup with its arguments", CALL)
    if not f.is_gen:
        ctx.unk(R, "parallel: results", f.loc, "not a generator")
        return
    g = ctx.run(name)
    P = g.params
    s = P["self"] if "self" in P else None
    subs = [e for e in g.events if e.kind == "call" and e.name == "submit"]
    if len(subs) != 1:
        ctx.unk(R, "parallel: trials are submitted", f.loc, f"{len(subs)} submissions")
        return
    e = subs[0]
    if not e.loops:
        ctx.unk(R, "parallel: trials are submitted", e.loc, "not in a loop")
        return
    lid, it = e.loops[-1]
    lp = g.eng.loops[lid]
    ctx.put(True if strip(lp.iter, "builtins.list", "builtins.tuple", "builtins.iter") is P[roles["numbers"]] else None, R, "parallel: one submission per number", e.loc, show(lp.iter, 4))
    A = list(e.args)
    ok = len(A) == 3 and A[0] is P[roles["fn"]] and A[2].op == "star" and strip(A[2].a[0], "builtins.list", "builtins.tuple") is P[roles["args"]]
    ctx.put(True if ok else None, R, "parallel: submits that function with those arguments", e.loc, show(e.term, 4))
    if ok:
        same(ctx, R, "parallel: the number of the trial", A[1], mk("elem", lp.iter, 0), e.loc)
    queue(ctx, R, g, lp, lid, e, f)


def queue(ctx, R, g, lp, lid, sub, f):
    """the queue of futures: what enters leaves through a yielded result, in order, and nothing stays behind"""
    q = None
    for mu, step in lp.step.items():
        if any(x is sub.term for x in subterms(step)) and g.eng.muinfo.get(mu, ("",))[0] != "vars":
            q = mu
    if q is None:
        ctx.unk(R, "parallel: queue of pending trials", f.loc, "no container receives the submissions")
        return
    step = lp.step[q]
    obj = g.eng.muinfo[q][1]
    push = [e for e in g.events if e.kind == "mutate" and e.op in ("append", "appendleft", "insert", "add") and any(x is sub.term for a in e.args for x in subterms(a))]
    if len(push) != 1:
        ctx.unk(R, "parallel: queue of pending trials", f.loc, f"{len(push)} pushes")
        return
    push = push[0]
    if sub.facts or push.facts:
        fs = list(dict.fromkeys(list(sub.facts) + list(push.facts)))
        ctx.put(None, R, "parallel: every trial is submitted", sub.loc, "only when " + "; ".join(show(x, 4) for x in fs))
        v = [x for x in fs if x.op == "cmp" or x.op == "not"]
        if v and all(any(is_call(y, "builtins.len") for y in subterms(x)) for x in v):
            ctx.obs.pop()
            ctx.bad(R, "parallel: every trial is submitted", sub.loc, "a number is passed over when not (" + "; ".join(show(x, 4) for x in v) + ")")
    else:
        ctx.ok(R, "parallel: every trial is submitted", sub.loc)
    ctx.put(False if lp.exits and all(is_const(c, True) for c in lp.exits) else True if not lp.exits else None, R, "parallel: the submissions are not cut short", sub.loc, "; ".join(show(c, 4) for c in lp.exits))
    # pops and yields
    pops = [e for e in g.events if e.kind == "mutate" and e.obj is push.obj and e.op in ("popleft", "pop", "clear", "remove")]
    yields = [e for e in g.events if e.kind == "yield"]
    resd = {}
    for y in yields:
        v = y.value
        if mcall(v, "result") is None:
            ctx.unk(R, "parallel: yields the result of a trial", y.loc, show(v, 4))
            continue
        resd[y] = v.a[0].a[0]
    used = set()
    for p in pops:
        mine = [y for y in resd if y.loops == p.loops and y.facts == p.facts and y.n > p.n and y not in used and not any(o is not p and p.n < o.n < y.n for o in pops)]
        nm = "parallel: a trial taken from the queue has its result yielded"
        if not mine:
            ctx.put(False if not any(e.kind == "call" and e.n > p.n and e.name == "result" for e in g.events) or len(yields) < len(pops) else None, R, nm, p.loc, "taken and not yielded")
            continue
        used.add(mine[0])
        ctx.ok(R, nm, p.loc)
        # position
        front = p.op == "popleft" or p.op == "pop" and p.args and is_const(p.args[0], 0)
        back = p.op == "pop" and (not p.args or is_const(p.args[0], -1))
        fifo = front if push.op == "append" else back if push.op == "appendleft" else None
        lifo = back if push.op == "append" else front if push.op == "appendleft" else False
        ctx.put(True if fifo else False if lifo else None, R, "parallel: results are taken in order of submission", p.loc, "the latest submission is taken first")
    for y in resd:
        if y not in used:
            ctx.put(None, R, "parallel: a result is yielded once", y.loc, "the trial stays in the queue")
    # drained
    last = [p for p in pops if p.loops and p.loops[-1][0] != lid and p.n > sub.n]
    drained = None
    for p in last:
        l2 = g.eng.loops[p.loops[-1][0]]
        if p.loops[-1][0] in [l for l, _ in sub.loops]:
            continue
        cond = l2.iter
        fs = [c for c in p.facts]
        mu2 = [m for m in l2.step if g.eng.muinfo[m][1] is push.obj or g.eng.muinfo[m] == g.eng.muinfo[q]]
        # the loop goes on exactly while something is pending
        ok = True
        for k in (0, 1, 2, 3):
            def val(t, k=k):
                if is_call(t, "builtins.len") and t.a[1][0].op == "mu":
                    return k
                return None

            def leaf(c, env, k=k, val=val):
                if c.op == "mu":
                    return k > 0
                return numleaf(val)(c, env)
            try:
                got = all(truth_of(c, None, leaf) for c in fs)
            except Undecided:
                got = None
            if got is None:
                ok = None
                break
            if got != (k > 0):
                ok = False
                break
        drained = ok
        ctx.put(ok, R, "parallel: the queue is drained", p.loc, f"with {k} trials pending the loop {'goes on' if got else 'stops'}")
        if l2.exits and any(is_const(c, True) for c in l2.exits):
            ctx.bad(R, "parallel: the queue is drained", p.loc, "the loop is left after the first result")
    for e in g.events:
        # draining by iteration over the queue
        if e.kind == "yield" and e in resd and e not in used and e.loops and e.loops[-1][0] not in [l for l, _ in sub.loops]:
            l2 = g.eng.loops[e.loops[-1][0]]
            if resd[e] is mk("elem", l2.iter, 0) and not e.facts and not l2.exits:
                drained = True
                ctx.obs = [o for o in ctx.obs if not (o["construct"] == "parallel: a result is yielded once" and o["where"] == e.loc)]
                ctx.ok(R, "parallel: the queue is drained", e.loc)
    if drained is None and not last:
        after = [e for e in g.events if e.n > sub.n and e.kind in ("yield", "yieldfrom", "call") and not any(l == lid for l, _ in e.loops)]
        ctx.put(False if not after else None, R, "parallel: the queue is drained", f.loc, "nothing takes the trials still pending after the last submission")


def r_trial(ctx):
    R = "a trial"
    r = ctx.run("path_random.RandomGreedy.setup", public=True, opaque=OPQ)
    s = r.params["self"]
    v = r.eng.freeze(r.ret, r.state) if r.ret.op == "new" else r.ret
    if v.op != "tup" or len(v.a) != 2 or v.a[0].op != "func":
        ctx.put(None, R, "function of a trial", ctx.p.fn("path_random.RandomGreedy.setup").loc, show(v, 4))
        return
    fq = v.a[0].a[0]
    f = ctx.p.fn(fq)
    ctx.put(True if ".<" not in fq and f.cls is None else False if ".<" in fq else None, R, "the function of a trial can be sent to a worker process", f.loc, f"{fq} is local to a function: a process pool cannot receive it")
    args = v.a[1]
    if args.op not in ("tup", "lst"):
        ctx.unk(R, "arguments of a trial", f.loc, show(args, 4))
        return
    P = f.params()
    req = len(P) - 1 - len(f.node.args.defaults)
    ctx.put(req <= len(args.a) < len(P) or f.node.args.vararg is not None, R, "number of arguments", f.loc, f"{len(args.a)} arguments for {P[1:]}")
    for a in args.a:
        loc_ = [x for x in subterms(a) if x.op == "func" and ".<" in x.a[0] or x.op in ("lam", "lambda", "closure")]
        ctx.put(False if loc_ else True if not (a is s) else None, R, "arguments can be sent to a worker process", f.loc, show(a, 4) + " holds a local function")
    # the trial itself
    g = ctx.run(fq, opaque=OPQ)
    Q = g.params
    num = Q[P[0]]
    seeds = [e for e in g.events if e.kind == "call" and e.callee is mk("ext", "random.seed")]
    loc = f.loc
    if not seeds:
        _, _, ext = closure(ctx.p, [fq])
        own = [e for e in ext if e in ("random.Random",)]
        ctx.put(None if own or "random.seed" in ext else False, R, "the generator is seeded with the number of the trial", loc, "nothing seeds it")
    for e in seeds[:1]:
        a = e.args[0] if e.args else NONE
        if a is num:
            ctx.ok(R, "the generator is seeded with the number of the trial", e.loc)
        elif not contains(a, num):
            ctx.bad(R, "the generator is seeded with the number of the trial", e.loc, f"seeded with {show(a, 3)}")
        else:
            try:
                vs = [numeval(a, lambda q, k=k: k if q is num else None) for k in range(12)]
                ctx.put(True if len(set(vs)) == 12 else False, R, "the generator is seeded with the number of the trial", e.loc, f"trials 0..11 get seeds {vs}")
            except Undecided as u:
                ctx.unk(R, "the generator is seeded with the number of the trial", e.loc, str(u))
        if e.facts:
            bad = None
            for k in (0, 1, 5):
                try:
                    if not all(truth_of(c, None, numleaf(lambda q, k=k: k if q is num else None)) for c in e.facts):
                        bad = k
                except Undecided:
                    bad = bad if bad is not None else "?"
            ctx.put(None if bad == "?" else bad is None, R, "every trial is seeded", e.loc, f"trial {bad} is not")
        else:
            ctx.ok(R, "every trial is seeded", e.loc)
        search = [x for x in g.events if x.kind == "call" and callee(x) == "paths.ssa_greedy_optimize"]
        for x in search:
            ctx.put(e.n < x.n, R, "seeded before the search", e.loc, f"the search at {x.loc} draws before")
    # greedy run
    for x in [x for x in g.events if x.kind == "call" and callee(x) == "paths.ssa_greedy_optimize"]:
        ch = targ(ctx, x.term, "choose_fn")
        if ch is None:
            continue
        given = Q.get("choose_fn")
        for k in (0, 1, 2, 9):
            nl = numleaf(lambda q: k if q is num else None)
            at = []
            for y in subterms(ch):
                if y.op == "phi":
                    at += [a for a in atoms_of(y.a[0]) if nl(a, None) is None and a not in at]
            free = len(at) <= 4 and all(not contains(a, given) and any(z.op == "param" for z in subterms(a)) and not contains(a, num) for a in at)
            want = NONE if k == 0 else given
            nm = "trial 0 is the deterministic greedy search" if k == 0 else f"trial {k} draws with the chooser of the optimizer"
            for vs in itertools.product((True, False), repeat=len(at) if free else 0):
                env = dict(zip(at, vs))
                try:
                    t = pick(ch, lambda q, v: env.get(q, nl(q, v)))
                except Undecided as u:
                    ctx.unk(R, nm, x.loc, str(u))
                    continue
                ctx.put(True if t is want else False if t is NONE or k == 0 and t is given else None, R, nm, x.loc, f"the chooser is {show(t, 3)}" + (" when " + ", ".join(f"{show(q, 3)} is {v}" for q, v in env.items()) if env else ""))
    # dependence on anything else
    pure(ctx, R, fq, v)


NONDET = ("time.", "os.", "uuid.", "secrets.", "threading.", "random.SystemRandom", "numpy.random", "builtins.id", "builtins.hash", "socket.", "multiprocessing.")


def pure(ctx, R, fq, v):
    start = {fq} | {x.a[0] for x in subterms(v) if x.op == "func"}
    fns, glob, ext = closure(ctx.p, start)
    bad = [(n, w) for n, w in ext.items() if any(n == d or n.startswith(d) for d in NONDET) and not n.startswith("os.path")]
    f = ctx.p.fn(fq)
    for n, (g, node) in bad:
        ctx.bad(R, "a trial draws from the seeded generator only", f"{g.mod.rel}:{node.lineno}", f"{g.fq} refers to {n}")
    if not bad:
        ctx.ok(R, "a trial draws from the seeded generator only", f.loc, f"{len(fns)} functions reachable")
    re = [q for q in sorted(fns) if q != fq and any(t.op == "ext" and t.a[0] in ("random.seed", "random.setstate") for t, _ in refs_of(ctx, q))]
    for q in re:
        direct = ctx.p.fns[q]
        ctx.put(None, R, "the generator is seeded once per trial", direct.loc, f"{q} seeds it too")
    # writes to what outlives the trial
    for q in sorted(fns):
        g = ctx.p.fns[q]
        for n in ast.walk(g.node):
            if isinstance(n, ast.Global):
                ctx.put(None, R, "a trial leaves nothing behind", f"{g.mod.rel}:{n.lineno}", f"{q} assigns the global {n.names}")
        for kind, node, what in shared_writes(ctx, g):
            ctx.bad(R, "a trial leaves nothing behind", f"{g.mod.rel}:{node.lineno}", f"{q} {kind} {what}, which later trials of the same process see and those of other processes do not")
        for d in g.decorators:
            s = ast.unparse(d)
            if "cache" in s:
                ctx.put(None, R, "a trial leaves nothing behind", g.loc, f"{q} is cached ({s})")
    if not any(o["construct"] == "a trial leaves nothing behind" for o in ctx.obs):
        ctx.ok(R, "a trial leaves nothing behind", f.loc)


def refs_of(ctx, q):
    from sa.graph import refs
    return refs(ctx.p, ctx.p.fns[q])


MUT = {"append", "add", "update", "pop", "popitem", "clear", "extend", "insert", "remove", "discard", "setdefault", "sort", "reverse"}


def shared_writes(ctx, g):
    """mutations of module globals or of mutable default arguments inside g"""
    from sa.graph import scope
    loc = scope(g)
    a = g.node.args
    dm = {}
    ps = a.posonlyargs + a.args
    for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if isinstance(d, (ast.Dict, ast.List, ast.Set)) or isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ("dict", "list", "set", "defaultdict"):
            dm[p.arg] = d
    rebound = {n.id for n in ast.walk(g.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def shared(e):
        while isinstance(e, (ast.Subscript, ast.Attribute)):
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        if e.id in dm and e.id not in rebound:
            return f"its default argument {e.id}"
        if e.id not in loc:
            t = g.mod.ns.get(e.id)
            if t is not None:
                t = ctx.p.resolve(t)
                if t.op == "gvar":
                    return f"the global {e.id}"
        return None
    for n in ast.walk(g.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            w = shared(n.value)
            if w:
                yield "stores in", n, w
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
            w = shared(n.func.value)
            if w:
                yield f"calls {n.func.attr} on", n, w


def check(ctx):
    if "path_random.RandomOptimizer" not in ctx.p.classes:
        raise AnalysisBroken("path_random.RandomOptimizer is missing")
    ctx.rule("trials", r_trials)
    ctx.rule("a trial", r_trial)
