"""C22: looking something up in an internal table gives what computing it afresh would give."""
import ast

from sa.engine import is_call, mcall
from sa.kit import Undecided, pick, root, show, strip, truth_of
from sa.src import AnalysisBroken
from sa.terms import FALSE, NONE, TRUE, cmp, const, contains, cval, is_const, kids, mk, subterms
from .c02 import Key
from .common import SEARCH_OPAQUE, call_arg, nested, recursive_nested

DESC = ("Key-completeness analysis of every memo table in the package, found by shape (a store under a key that was just looked up and not found): "
        "each varying input of the stored value must be recoverable from the key, or the stored value must be shown not to be that input; search sub-results must be keyed "
        "by the sets of original terms behind both intermediates; remembered capabilities must agree with the lookup they summarise.")


def package_opaque(ctx):
    return frozenset(fq for fq in ctx.p.fns if "<" not in fq)


def memo_stores(r):
    """[(event, container, key, value)]: stores under a key looked up before"""
    out = []
    for e in r.events:
        if e.kind != "mutate" or e.op not in ("setitem", "setdefault") or len(e.args) < 2:
            continue
        c, k, v = e.obj, e.args[0], e.args[1]

        def about(x):
            return x is c or (x.op == "mu" and x in r.eng.muinfo and r.eng.muinfo[x][1] is c) or (x.op in ("setitem", "esc") and about(x.a[0])) or (
                x.op == "phi" and about(x.a[1]) and about(x.a[2]))
        hit = e.op == "setdefault"
        for f in e.facts:
            for s in subterms(f):
                if s.op == "cmp" and s.a[0] == "in" and about(s.a[2]) and (s.a[1] is k or contains(k, s.a[1]) or contains(s.a[1], k) or True):
                    hit = hit or s.a[1]
                if s.op == "cmp" and s.a[0] == "is" and s.a[1].op == "get" and about(s.a[1].a[0]):
                    hit = hit or s.a[1].a[1]
        if hit:
            out.append((e, c, k, v, None if hit is True else hit))
    return out


def varying(ctx, fq, v, container):
    """the inputs of a stored value that may differ between two uses of the same table"""
    fn = ctx.p.fns[fq]
    own = {fq}
    # a table owned by an outer function lives during one call of it; inner functions' parameters vary
    owner = None
    if container.op == "param":
        owner = container.a[0]
    if owner is not None:
        o = fn.outer
        while o is not None and o.fq != owner:
            own.add(o.fq)
            o = o.outer
    out = []
    for s in subterms(v):
        if s.op == "param" and s.a[0] in own and s.a[1] not in ("self",):
            out.append(s)
    return out


def r_tables(ctx):
    R = "tables"
    op = package_opaque(ctx)
    seen = 0
    for fq, fn in sorted(ctx.p.fns.items()):
        if fq.startswith(("testing.", "tests.")) or ".tests" in fq or fq.startswith("sharing."):
            continue
        if not any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for x in ast.walk(fn.node)) and not any(
                isinstance(x, ast.Attribute) and x.attr == "setdefault" for x in ast.walk(fn.node)):
            continue
        try:
            r = ctx.run(fq, opaque=op - {fq})
        except Undecided:
            continue
        except AnalysisBroken:
            raise
        except Exception as ex:     # noqa: BLE001
            ctx.unk(R, fq, fn.loc, f"not analysed: {ex}")
            continue
        for e, c, k, v, looked in memo_stores(r):
            rt = root(c)
            if e.fq != fq or v.op in ("param", "const") and v not in (TRUE, FALSE):
                continue      # a registry keeps what it is given
            if not (rt.op in ("gvar",) or c.op == "param" and c.a[0] != fq or (c.op == "attr" and rt.op == "param" and rt.a[1] == "self")):
                continue
            if any(is_call(s, "paths.calc_k12_flops") for s in subterms(v)) and not any(is_call(s, "helpers.compute_size_by_dict") for s in subterms(v)):
                continue      # search sub-results: their own rule
            name = f"{fq}: {show(c, 2)}"
            seen += 1
            if looked is not None and looked is not k and not (is_call(k, "contract.parse_backend")):
                ctx.put(False if looked.op in ("param", "const") and k.op in ("param", "const") else None, R,
                        f"{name}: stored under the key that is looked up", e.loc, f"looked up under {show(looked, 3)}, stored under {show(k, 3)}")
            elif looked is not None:
                ctx.ok(R, f"{name}: stored under the key that is looked up", e.loc)
            K = Key(ctx, k)
            bad = None
            for a in dict.fromkeys(_free(ctx, fq, v, c, K)):
                st = K.status(a)
                if st is True:
                    continue
                if guarded(e, v, a):
                    continue
                if uses_kind_only(ctx, fq, v, a):
                    continue
                if isinstance(st, tuple):
                    bad = st[1]
                else:
                    bad = bad or 0
            ctx.put(True if bad is None else None if bad == 0 else False, R, f"{name}: the key fixes what is stored", e.loc,
                    f"{bad}: another call with the same key gets this entry although it may need another value")
    if not seen:
        raise Undecided("no table recognised")


def _free(ctx, fq, v, c, K):
    """varying atoms of v not under a subterm already recoverable from the key"""
    out = []
    vs = set(varying(ctx, fq, v, c))

    def go(t):
        if t in K.plain or t in K.objs:
            return
        if t in vs:
            out.append(t)
            return
        for x in kids(t):
            go(x)
    go(v)
    return out


def guarded(e, v, a):
    """the store is only reached when the value is not the input itself (a fallback that was not used)"""
    for f in e.facts:
        for s in (f.a if f.op == "and" else (f,)):
            if s.op == "not" and s.a[0].op == "cmp" and s.a[0].a[0] in ("is", "eq") and set(s.a[0].a[1:]) == {v, a}:
                return True
    return False


def uses_kind_only(ctx, fq, v, a):
    """the arrays given to a backend's expression builder (judged by the builders themselves, see 'expression builders' of C21)"""
    if v.op == "call" and v.a[0].op == "func" and v.a[0].a[0] == "backends.dispatch.build_expression":
        fn = ctx.p.fns["backends.dispatch.build_expression"]
        return call_arg(v, fn, "arrays") is a
    return False


# ---------------------------------------------------------------- search sub-results
def r_search(ctx):
    R = "search sub-results"
    for outer in ("paths.optimal", "paths.BranchBound.__call__"):
        if not ctx.has(outer):
            raise AnalysisBroken(outer + " is missing")
        rec = recursive_nested(ctx, outer)
        n = 0
        for fq in [rec] + [x for x in nested(ctx, outer) if x != rec]:
            try:
                r = ctx.run(fq, opaque=SEARCH_OPAQUE)
            except Undecided:
                continue
            for e in r.events:
                if e.kind != "mutate" or e.op not in ("setitem", "setdefault") or len(e.args) < 2 or e.fq != fq:
                    continue
                v = e.args[1]
                call = v if is_call(v, "paths.calc_k12_flops") else next((s for s in (v.a if v.op == "tup" else ()) if is_call(s, "paths.calc_k12_flops")), None)
                if call is None and v.op == "tup":
                    call = next((s.a[0] for s in v.a if s.op == "idx" and is_call(s.a[0], "paths.calc_k12_flops")), None)
                if call is None or e.obj.op != "param":
                    continue
                n += 1
                key_rule(ctx, R, outer, rec, e, e.args[0], call)
        if n == 0:
            # no table: nothing to go wrong
            ctx.ok(R, f"{outer}: no table of sub-results", ctx.p.fn(outer).loc)


def key_rule(ctx, R, outer, rec, e, k, call):
    fn = ctx.p.fns["paths.calc_k12_flops"]
    inp, i, j = (call_arg(call, fn, n) for n in ("inputs", "i", "j"))
    if None in (inp, i, j):
        raise Undecided("arguments of calc_k12_flops")
    name = outer.split(".", 1)[1]
    comps = list(k.a) if k.op == "tup" else [k]
    comps = [strip(c, "builtins.tuple", "builtins.frozenset", "builtins.sorted") for c in comps]
    flat = []
    for c in comps:
        flat += list(c.a) if c.op in ("tup", "set", "lst") else [c]
    leafs = {}
    for c in flat:
        if c.op == "idx" and c.a[1] in (i, j) and c.a[0].op == "param":
            leafs.setdefault(c.a[0], set()).add(c.a[1])
    cand = [b for b, xs in leafs.items() if xs == {i, j} and b is not inp]
    if cand:
        b = cand[0]
        ok, why = leaf_sets(ctx, outer, rec, b)
        ctx.put(ok, R, f"{name}: keyed by the original terms behind both intermediates", e.loc, why)
        return
    known = all((c.op == "idx" and c.a[0] is inp) or c in (i, j) or (c.op == "bin" and c.a[0] in ("|", "^", "&")) or (c.op == "add") or c.op == "union" or c.op == "const" for c in flat)
    if known and flat:
        ctx.bad(R, f"{name}: keyed by the original terms behind both intermediates", e.loc,
                f"the key {show(k, 4)} does not tell which original terms are behind the pair (and so which are left), on which the result and its cost depend")
    else:
        ctx.unk(R, f"{name}: keyed by the original terms behind both intermediates", e.loc, "key " + show(k, 4))


def leaf_sets(ctx, outer, rec, b):
    """(verdict, why): is the recursion parameter b a sequence giving, for each term, the set of original terms in it?"""
    if b.a[0] != rec:
        return None, f"{show(b)} is not a parameter of the recursion"
    name = b.a[1]
    fn = ctx.p.fns[rec]
    r = ctx.run(rec, opaque=SEARCH_OPAQUE)
    me = r.params.get(name)
    n = 0
    for e in r.events:
        if e.kind == "call" and ((e.callee.op == "func" and e.callee.a[0] == rec) or (e.callee.op in ("closure", "free") and contains(e.callee, lambda u: u.op == "const" and cval(u) == fn.node.name))):
            a = call_arg(e, fn, name)
            inp = call_arg(e, fn, "inputs")
            if a is None:
                return None, "recursion does not pass " + name
            n += 1
            if a.op != "add" or a.a[0] is not me or len(a.a) != 2 or a.a[1].op not in ("tup", "lst") or len(a.a[1].a) != 1:
                return (False if a is me else None), f"the recursion passes {show(a, 4)}: the new intermediate has no entry of its own"
            u = a.a[1].a[0]
            parts = u.a if u.op in ("union", "add") else u.a[1:] if u.op == "bin" and u.a[0] in ("|", "+") else None
            if parts is None:
                return (False if u.op == "bin" and u.a[0] in ("&", "^", "-") or u.op == "idx" else None), f"the new intermediate is recorded as {show(u, 4)}, not as the union of both"
            if len(parts) != 2 or any(p.op != "idx" or p.a[0] is not me for p in parts) or parts[0] is parts[1]:
                return None, "entry " + show(u, 4)
    if not n:
        return None, "no recursive call seen"
    ro = ctx.run(outer, opaque=SEARCH_OPAQUE | {rec})
    for e in ro.events:
        if e.kind == "call" and e.callee.op == "func" and e.callee.a[0] == rec:
            a = call_arg(e, fn, name)
            if a is None:
                return None, "initial call"
            s = strip(ro.eng.freeze(a, ro.state))
            if s.op == "comp" and len(s.a[2]) == 1 and s.a[3] is TRUE:
                el, it = s.a[1], s.a[2][0]
                x = mk("elem", it, 0)
                if is_call(it, "builtins.range") and len(it.a[1]) == 1 or is_call(it, "builtins.enumerate"):
                    if is_call(it, "builtins.enumerate"):
                        x = mk("idx", x, const(0))
                    pos = [x] + [u for u in subterms(el) if u.op == "pos"]
                    if el.op == "bin" and el.a[0] == "<<" and is_const(el.a[1], 1) and el.a[2] in pos:
                        return True, ""
                    if el.op == "bin" and el.a[0] == "**" and is_const(el.a[1], 2) and el.a[2] in pos:
                        return True, ""
                    if is_call(el, "builtins.frozenset") and el.a[1] and el.a[1][0].op in ("tup", "lst", "set") and el.a[1][0].a and el.a[1][0].a[0] in pos:
                        return True, ""
                    if el in pos:
                        return False, "the original terms are recorded as plain numbers, whose combinations are not unique"
            return None, "initial entries " + show(s, 5)
    return None, "initial call not found"


# ---------------------------------------------------------------- capabilities
def r_capable(ctx):
    R = "capabilities"
    for what in ("einsum", "tensordot"):
        fq = f"backends.dispatch.has_{what}"
        r = ctx.run(fq, public=True, opaque=frozenset({"backends.dispatch.get_func", "backends.dispatch._import_func"}))
        p = r.params[ctx.p.fn(fq).params()[0]]
        looks = [e for e in r.events if e.kind == "call" and e.callee.op == "func" and e.callee.a[0] in ("backends.dispatch.get_func", "backends.dispatch._import_func")]
        if len(looks) != 1:
            # written through a shared helper or otherwise
            if not looks:
                t = r.eng.freeze(r.ret, r.state)
                if not r.eng.loops and not any(e.kind == "call" for e in r.events) and not contains(t, lambda u: u.op == "call"):
                    ctx.bad(R, f"has_{what} looks for {what}", ctx.p.fn(fq).loc, "nothing is looked up: the answer is " + show(t, 4))
                    continue
                raise Undecided(f"{fq}: no lookup")
        for e in looks:
            fn = ctx.p.fns[e.callee.a[0]]
            f, b = call_arg(e, fn, "func"), call_arg(e, fn, "backend")
            ctx.put(None if f is None or f.op != "const" else cval(f) == what, R, f"has_{what} looks for {what}", e.loc, "looks for " + (show(f) if f is not None else "?"))
            if b is None and not any(a.op == "star" for a in e.args) and all(k for k, _ in e.kws):
                b = NONE        # the default of the lookup
            ctx.put(True if b is p else None if b is None or contains(b, p) else False, R, f"has_{what} looks in the backend given", e.loc, "looks in " + (show(b, 3) if b is not None else "?"))
            hs = set()
            for t in e.tries:
                for h in t[1]:
                    if h not in ("finally",):
                        hs.add(h)
            broad = hs - {"AttributeError", "KeyError"}
            ctx.put(True if not broad else False if broad & {"Exception", "BaseException", "", "*", "ImportError", "ModuleNotFoundError"} else None, R,
                    f"has_{what} remembers only that the function is missing", e.loc,
                    "a backend that cannot be imported (" + ", ".join(sorted(map(str, broad))) + ") is remembered as one without the function")
        # the answer follows the outcome of the lookup
        t = r.eng.freeze(r.ret, r.state)
        exc = [s for s in subterms(t) if s.op == "exc"]
        stores = [e for e in r.events if e.kind == "mutate" and e.op == "setitem" and e.args[1] in (TRUE, FALSE, const(True), const(False)) and root(e.obj).op == "gvar"]
        for e in stores:
            failed = any(f.op == "exc" for f in e.facts)
            okd = any(f.op == "not" and f.a[0].op == "exc" for f in e.facts)
            val = bool(cval(e.args[1]))
            if failed or okd:
                ctx.put(val == okd if failed != okd else None, R, f"has_{what}: {'success' if okd else 'failure'} is remembered as such", e.loc, f"remembers {val}")
                k = e.args[0]
                part = lossy(k, p)
                ctx.put(True if k is p else False if part or not contains(k, p) else None, R, f"has_{what}: remembered for the backend given", e.loc,
                        "remembered under " + show(k, 3) + ", which two backends may share")
        for failed in (False, True):
            def leaf(c, env, failed=failed):
                if c.op == "exc":
                    return failed
                if c.op == "cmp" and c.a[0] == "in" and c.a[1] is p and c.a[2].op == "gvar":
                    return False
                return None
            nm = f"has_{what}: first question, function {'missing' if failed else 'there'}"
            if len(set(exc)) != 1:
                ctx.unk(R, nm, ctx.p.fn(fq).loc, f"{len(set(exc))} exceptions")
                continue
            try:
                v = pick(t, leaf)
                v = v if v.op in ("const", "idx") else const(truth_of(v, None, leaf))
            except Undecided as ex:
                ctx.unk(R, nm, ctx.p.fn(fq).loc, str(ex))
                continue
            lost = v.op == "idx" and v.a[0].op == "gvar" and v.a[1] is p
            ctx.put(False if lost else None if v.op != "const" else cval(v) == (not failed), R, nm, ctx.p.fn(fq).loc,
                    "the answer is read from the table, where there is none (KeyError)" if lost else "the answer is " + show(v, 4))
        tabs = {e.obj for e in stores}
        reads = {s.a[2] for e in r.events for f in e.facts for s in subterms(f) if s.op == "cmp" and s.a[0] == "in" and s.a[2].op == "gvar"}
        reads |= {s.a[0] for s in subterms(t) if s.op == "idx" and s.a[0].op == "gvar"}
        if stores and reads:
            ctx.put(reads <= tabs, R, f"has_{what} reads the table it writes", ctx.p.fn(fq).loc, f"reads {sorted(show(x) for x in reads)}, writes {sorted(show(x) for x in tabs)}")
    # the two tables are different objects
    names = {}
    for what in ("einsum", "tensordot"):
        r = ctx.run(f"backends.dispatch.has_{what}", opaque=frozenset({"backends.dispatch.get_func", "backends.dispatch._import_func"}))
        names[what] = {e.obj for e in r.events if e.kind == "mutate" and root(e.obj).op == "gvar"}
    if all(names.values()) and all(x.op == "gvar" for xs in names.values() for x in xs):
        ctx.put(not (names["einsum"] & names["tensordot"]), R, "both answers have their own table", ctx.p.fn("backends.dispatch.has_einsum").loc, "one table holds both answers under the same keys")


def lossy(k, p):
    """the key keeps only a part of a name"""
    if k.op == "idx" and k.a[1].op in ("const", "slice"):
        y = k.a[0]
        if y is p:
            return True
        if y.op == "idx":
            return lossy(y, p)
        for m in ("split", "partition", "rpartition", "rsplit"):
            c = mcall(y, m)
            if c and contains(y, p):
                return True
    if is_call(k, "builtins.len", "builtins.bool", "builtins.type"):
        return True
    return False


# ---------------------------------------------------------------- functions cached by decorator
def r_decorated(ctx):
    R = "cached functions"
    mutated = set()
    for fq, fn in ctx.p.fns.items():
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Global):
                mutated.update((fn.mod.name if hasattr(fn.mod, "name") else fn.mod, n) for n in x.names)
    n = 0
    for fq, fn in sorted(ctx.p.fns.items()):
        if not any("lru_cache" in ast.unparse(d) or ast.unparse(d).split("(")[0].split(".")[-1] == "cache" for d in fn.node.decorator_list):
            continue
        n += 1
        r = ctx.run(fq)
        t = r.eng.freeze(r.ret, r.state)
        gv = [s for s in subterms(t) if s.op == "gvar" and s.a in mutated]
        ev = [e for e in r.events if e.kind in ("setattr",) or (e.kind == "mutate" and root(e.obj).op in ("gvar", "param"))]
        ctx.put(None if gv else True, R, f"{fq}: depends on its arguments only", fn.loc, "reads " + ", ".join(show(x) for x in gv))
        ctx.put(None if ev else True, R, f"{fq}: changes nothing", fn.loc, "")
        # an argument reduced before the lookup happens outside, where Python compares whole arguments
        attrs = [s for s in subterms(t) if s.op == "attr" and s.a[0].op == "param" and s.a[1] in ("shape", "dtype", "flags", "__array_interface__")]
        ctx.put(None if attrs else True, R, f"{fq}: keyed by what it inspects", fn.loc, ", ".join(show(x) for x in attrs))
    if not n:
        ctx.ok(R, "no cached functions", "")


def check(ctx):
    ctx.rule("tables", r_tables)
    ctx.rule("search sub-results", r_search)
    ctx.rule("capabilities", r_capable)
    ctx.rule("cached functions", r_decorated)
