"""C01: sharing contexts nest per thread and always unwind."""
from sa.engine import is_call, mcall
from sa.kit import Undecided, numleaf, show, strip, truth_of
from sa.terms import NONE, TRUE, cmp, const, contains, cval, mk, subterms, truth

DESC = ("Typestate/effect analysis of the sharing context manager: the value-flow events before and after its yield (push, pop, "
        "removal of the thread's entry) are matched with the exception structure around the yield and evaluated for every nesting depth; "
        "thread confinement is read off the key under which the stack is kept.")


def thread_term(eng, t):
    """Does the term select per-thread data?"""
    for s in subterms(t):
        if is_call(s, "threading.get_ident", "threading.current_thread", "threading.get_native_id", "_thread.get_ident"):
            return True
        if s.op == "gvar":
            v = eng.global_value(s)
            if v is not None and contains(v, lambda x: is_call(x, "threading.local", "contextvars.ContextVar")):
                return True
    return False


def gvars(t):
    return [s for s in subterms(t) if s.op == "gvar"]


def r_top(ctx):
    R = "current cache"
    r = ctx.run("sharing.get_sharing_cache", public=True)
    t = r.eng.freeze(r.ret, r.state)
    where = ctx.p.fn("sharing.get_sharing_cache").loc
    th = thread_term(r.eng, t)
    if not gvars(t):
        raise Undecided("the current cache is " + show(t, 5))
    ctx.put(th, R, "get_sharing_cache: belongs to the calling thread", where, "the cache returned does not depend on the calling thread: " + show(t, 5))
    if t.op == "idx" and t.a[1].op == "const":
        k = cval(t.a[1])
        ctx.put(k == -1, R, "get_sharing_cache: innermost context", where, f"entry {k} of the thread's stack is returned, not the innermost one")
    else:
        ctx.unk(R, "get_sharing_cache: innermost context", where, show(t, 5))


def r_current(ctx):
    R = "sharing status"
    r = ctx.run("sharing.currently_sharing", public=True)
    t = r.eng.freeze(r.ret, r.state)
    where = ctx.p.fn("sharing.currently_sharing").loc
    if not gvars(t):
        raise Undecided(show(t, 5))
    ctx.put(thread_term(r.eng, t), R, "currently_sharing: asks about the calling thread", where,
            "the answer does not depend on the calling thread: " + show(t, 5))


def status_kind(ctx):
    r = ctx.run("sharing.currently_sharing", public=True)
    t = r.eng.freeze(r.ret, r.state)
    return "membership" if t.op == "cmp" and t.a[0] == "in" and t.a[2].op == "gvar" else "other"


def r_context(ctx):
    R = "context entry and exit"
    fq = "sharing.shared_intermediates"
    r = ctx.run(fq, public=True)
    where = ctx.p.fn(fq).loc
    ys = list(r.evs("yield"))
    if len(ys) != 1:
        raise Undecided(f"{len(ys)} yields")
    y = ys[0]
    muts = [e for e in r.evs("mutate") if e.obj.op == "gvar" or (e.obj.op in ("idx", "attr") and gvars(e.obj)) or mcall(e.obj, "setdefault", "get")]
    push = [e for e in muts if e.n < y.n and e.op in ("append", "insert", "appendleft", "extend")]
    if len(push) != 1:
        raise Undecided(f"{len(push)} pushes before the yield")
    push = push[0]
    stack = push.obj
    ctx.put(thread_term(r.eng, stack), R, "entry: pushes on the calling thread's stack", push.loc, "the stack is shared by all threads: " + show(stack, 4))
    pushed = push.args[-1]
    ctx.put(push.op == "append" and True or None, R, "entry: pushes innermost last", push.loc, f"{push.op} is used")
    if push.facts:
        ctx.unk(R, "entry: pushes on every entry", push.loc, "only pushed when " + show(push.facts[0], 4))
    else:
        ctx.ok(R, "entry: pushes on every entry", push.loc)
    ctx.put(pushed is y.value or None if contains(y.value, lambda x: x.op == "opaque") else pushed is y.value, R,
            "entry: the cache handed out is the one installed", y.loc, f"installs {show(pushed, 4)} but hands out {show(y.value, 4)}")
    # which cache
    p = list(r.params.values())[0] if r.params else None
    if p is not None:
        for what, is_none, truthy in (("no cache given", True, False), ("an empty cache given", False, False), ("a filled cache given", False, True)):
            def leaf(c, env):
                if c is cmp("is", p, NONE) or c is cmp("eq", p, NONE):
                    return is_none
                if c is p or c is truth(p):
                    return truthy
                return None

            def val(t):
                while t.op == "phi":
                    t = t.a[1] if truth_of(t.a[0], {}, leaf) else t.a[2]
                return t

            v = val(y.value)
            if is_none:
                good = True if (v.op == "dict" and not v.a) or is_call(v, "builtins.dict") else None if v.op not in ("gvar", "param") and v is not NONE else False
                ctx.put(good, R, f"entry: cache used with {what}", y.loc, f"a context without a cache of its own uses {show(v, 4)}")
            else:
                good = True if v is p else False if v.op in ("dict", "gvar") or is_call(v, "builtins.dict", "copy.copy") or mcall(v, "copy") is not None else None
                ctx.put(good, R, f"entry: cache used with {what}", y.loc, f"the caller's cache is not the one used: {show(v, 4)}")
    # exit
    after = [e for e in muts if e.n > y.n]
    pops = [e for e in after if e.op in ("pop", "popleft", "remove", "clear") and e.obj is stack]
    dels = [e for e in after if e.op in ("delitem", "pop", "clear") and e.obj.op == "gvar" and e.obj is not stack]
    if not pops and not dels:
        if not after and not any(e.kind == "mutate" and e.n > y.n for e in r.events):
            ctx.bad(R, "exit: the context is removed", where, "nothing is removed from the thread's stack after the block")
        else:
            ctx.unk(R, "exit: the context is removed", where, "removal not recognised")
        return
    fin = {t[0] for t in y.tries if t[2]}
    hnd = [t for t in y.tries if t[1] and t[1] != ["finally"]]
    htid = {t[0]: set(t[1]) for t in hnd}
    for what, evs in (("removal of the context", pops), ("removal of the thread's entry", dels)):
        if not evs:
            continue
        infin = [e for e in evs if any(t[0] in fin and t[1] == ["finally"] for t in e.tries)]
        inh = [e for e in evs if e not in infin and any(t[0] in htid and t[1] == [] for t in e.tries) and any(f.op == "exc" for f in e.facts)]
        plain = [e for e in evs if e not in infin and e not in inh]
        names = set().union(*(htid.get(t[0], set()) for e in inh for t in e.tries)) if inh else set()
        exc_ok = bool(infin) or bool(names & {"*", "BaseException"})
        ctx.put(exc_ok, R, f"exit: {what} when the block raises", evs[0].loc,
                "skipped when the block raises" + (f" anything but {', '.join(sorted(names))}" if names else "") + ", so the context stays installed")
        ctx.put(bool(infin or plain), R, f"exit: {what} when the block ends normally", evs[0].loc, "only done when the block raises")
    for e in pops:
        if e.op == "remove":
            ctx.bad(R, "exit: the innermost context is removed", e.loc, "removal by equality takes the first equal cache, not the innermost")
        elif e.op in ("clear", "popleft") or (e.op == "pop" and e.args and e.args[0].op == "const" and cval(e.args[0]) != -1):
            ctx.bad(R, "exit: the innermost context is removed", e.loc, f"{e.op}({', '.join(show(a, 3) for a in e.args)}) does not remove the innermost context")
        else:
            ctx.ok(R, "exit: the innermost context is removed", e.loc)
    # effect for every nesting depth
    pops = [e for e in pops if e.op == "pop"]
    base = len(y.facts)

    def size(t, d):
        """number of entries in a state of the stack when the depth inside the block is d"""
        if t is stack or (mcall(t, "get") is not None and stack.op == "idx" and mcall(t, "get") is stack.a[0]):
            return d - 1
        if t.op == "append":
            return size(t.a[0], d) + 1
        if t.op == "popped":
            return size(t.a[0], d) - 1
        raise Undecided("stack state " + show(t, 4))

    def holds(e, d):
        def val(t):
            if is_call(t, "builtins.len"):
                return size(t.a[1][0], d)
            if t.op in ("append", "popped") or t is stack:
                return size(t, d)
            return None

        return all(truth_of(f, {}, numleaf(val)) for f in e.facts[base:] if f.op != "exc" and not contains(f, lambda x: x.op == "exc"))

    kind = status_kind(ctx)
    inh = [e for e in pops + dels if any(t[0] in htid and t[1] == [] for t in e.tries) and any(f.op == "exc" for f in e.facts)]
    for d in (1, 2, 3):
        npop = sum(holds(e, d) for e in pops if e not in inh)
        ndel = sum(holds(e, d) for e in dels if e not in inh)
        if d > 1:
            if ndel:
                ctx.bad(R, f"exit at depth {d}", dels[0].loc, "the whole entry of the thread is dropped while an outer context is still open")
            else:
                ctx.put(npop == 1, R, f"exit at depth {d}", pops[0].loc if pops else where, f"{npop} entries are removed")
        else:
            if kind == "membership":
                ctx.put(bool(ndel), R, "exit at depth 1", (dels or pops)[0].loc, "the thread's entry stays behind after its last context, so it still counts as sharing")
            else:
                ctx.put(bool(ndel or npop), R, "exit at depth 1", (dels or pops)[0].loc, "the last context is not removed")


def r_writers(ctx):
    R = "writers of the stack"
    r = ctx.run("sharing.shared_intermediates", public=True)
    inl = {e.fq for e in r.events}
    gs = {g for e in r.evs("mutate") for g in gvars(e.obj) if g.a[0] == "sharing"}
    if not gs:
        raise Undecided("no module-level stack")
    n = 0
    for fq, fn in sorted(ctx.p.fns.items()):
        if fq in inl or fn.outer is not None:
            continue
        import ast
        if not any(isinstance(x, ast.Name) and x.id in {g.a[1] for g in gs} for x in ast.walk(fn.node)):
            continue
        rr = ctx.run(fq)
        n += 1
        for e in rr.evs("mutate"):
            if e.fq == fq and e.obj in gs:
                ctx.unk(R, f"{fq}: {e.op}", e.loc, "another function changes the stack of contexts")
    ctx.ok(R, "only the context manager changes the stack", "", f"{n} other users")


def check(ctx):
    ctx.rule("current cache", r_top)
    ctx.rule("sharing status", r_current)
    ctx.rule("context entry and exit", r_context)
    ctx.rule("writers of the stack", r_writers)
