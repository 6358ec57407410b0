"""Anchors and helpers shared by several rules."""
import ast

from sa.engine import is_call, mcall
from sa.kit import Undecided, show, truth_of
from sa.src import AnalysisBroken
from sa.terms import TRUE, const, contains, cval, is_const, kids, mk, subterms

SEARCH_OPAQUE = frozenset({"paths.calc_k12_flops", "helpers.compute_size_by_dict", "paths._compute_oversize_flops", "paths.ssa_to_linear",
                           "path_random.RandomOptimizer.setup", "helpers.flop_count"})


def nested(ctx, outer):
    """functions defined (at any depth) inside a function"""
    out = []
    for fq, fn in ctx.p.fns.items():
        o = fn.outer
        while o is not None:
            if o.fq == outer:
                out.append(fq)
                break
            o = o.outer
    return sorted(out)


def recursive_nested(ctx, outer):
    """the nested function that calls itself (the search recursion)"""
    if outer not in ctx.p.fns:
        raise AnalysisBroken(f"public function {outer} is missing")
    out = []
    for fq in nested(ctx, outer):
        fn = ctx.p.fns[fq]
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == fn.node.name for x in ast.walk(fn.node)):
            out.append(fq)
    if len(out) != 1:
        raise Undecided(f"{outer}: {len(out)} recursive nested functions")
    return out[0]


def cases(t, lits=()):
    """all (literals, value) alternatives of a gated value"""
    if t.op == "phi":
        return cases(t.a[1], lits + ((t.a[0], True),)) + cases(t.a[2], lits + ((t.a[0], False),))
    return [(lits, t)]


def call_arg(ev_or_term, fn, name, has_self=False):
    """the argument a call passes for a parameter (by position or keyword), or None"""
    ps = fn.params()
    if has_self:
        ps = ps[1:]
    if hasattr(ev_or_term, "kind"):
        args, kws = ev_or_term.args, dict(ev_or_term.kws)
    else:
        args, kws = ev_or_term.a[1], dict(ev_or_term.a[2])
    if name in kws:
        return kws[name]
    if name in ps:
        k = ps.index(name)
        if k < len(args) and not any(a.op == "star" for a in args[: k + 1]):
            return args[k]
    return None


def unmemo(t):
    """Read memo tables through: `k in C ? C[k] : v` stands for v (the completeness of the keys is a property of its own)."""
    from sa.terms import rebuild
    memo = {}

    def entry(x, k, c):
        while x.op in ("idx", "elem") and x.a[0].op in ("idx", "get", "elem"):
            x = x.a[0]
        return (x.op == "idx" and x.a[1] is k and x.a[0] is c) or (x.op == "get" and x.a[1] is k and x.a[0] is c)

    def go(x):
        r = memo.get(x)
        if r is None:
            r = x
            if x.op == "phi":
                c = x.a[0]
                if c.op == "cmp" and c.a[0] == "in" and entry(x.a[1], c.a[1], c.a[2]):
                    r = go(x.a[2])
                    memo[x] = r
                    return r
                if c.op == "cmp" and c.a[0] == "is" and c.a[1].op == "get" and x.a[2] is c.a[1]:
                    r = go(x.a[1])
                    memo[x] = r
                    return r
            r = rebuild(x, go)
            memo[x] = r
        return r

    return go(t)


def atoms_of(c, out=None):
    """the conditions a boolean term is built from"""
    out = [] if out is None else out
    if c.op in ("not", "and", "or"):
        for x in c.a:
            atoms_of(x, out)
    elif c.op == "phi":
        for x in c.a:
            atoms_of(x, out)
    elif c.op != "const" and c not in out:
        out.append(c)
    return out


ABSENT = mk("absent")


def dict_look(t, key, leaf=None):
    """The entry of a dict-valued term under a constant key: a value term, ABSENT, or mk('entry', base, key) for a dict given from outside."""
    from sa.kit import truth_of
    leaf = leaf or (lambda c, e: None)
    if t.op == "phi":
        try:
            c = truth_of(t.a[0], None, leaf)
        except Undecided:
            x, y = dict_look(t.a[1], key, leaf), dict_look(t.a[2], key, leaf)
            if x is y:
                return x
            return mk("phi", t.a[0], x, y)
        return dict_look(t.a[1] if c else t.a[2], key, leaf)
    if t.op == "dict":
        for k, v in reversed(t.a):
            if k.op == "star" or (k.op == "const" and cval(k) is None and v.op in ("param", "dictdel", "phi", "dmerge", "dict")):
                raise Undecided("dict " + repr(t)[:80])
            if k.op != "const":
                raise Undecided("dict key")
            if cval(k) == key:
                return v
        return ABSENT
    if t.op == "setitem":
        c, k, v = t.a
        if k.op != "const":
            raise Undecided("dict key")
        return v if cval(k) == key else dict_look(c, key, leaf)
    if t.op == "dictdel":
        if t.a[1].op != "const":
            raise Undecided("dict key")
        return ABSENT if cval(t.a[1]) == key else dict_look(t.a[0], key, leaf)
    if t.op == "dmerge":
        parts = list(t.a)
        while parts:
            v = dict_look(parts.pop(), key, leaf)
            if v is ABSENT:
                continue
            if v.op == "entry" and any(dict_look(q, key, leaf) is not ABSENT for q in parts):
                raise Undecided("merged dict")
            return v
        return ABSENT
    if is_call(t, "builtins.dict") and len(t.a[1]) == 1 and not t.a[2]:
        return dict_look(t.a[1][0], key, leaf)
    if mcall(t, "copy") is not None:
        return dict_look(mcall(t, "copy"), key, leaf)
    if t.op == "esc":
        return dict_look(t.a[0], key, leaf)
    if t.op == "comp" and t.a[0] == "dict" and len(t.a[2]) == 1 and t.a[1].op == "tup":
        # {k: v for k, v in d.items() if ...}: the entry may only be dropped
        it = t.a[2][0]
        b = mcall(it, "items")
        e = mk("elem", it, 0)
        if b is not None and t.a[1].a[0] is mk("idx", e, const(0)) and t.a[1].a[1] is mk("idx", e, const(1)):
            from sa.terms import subst
            v = dict_look(b, key, leaf)
            if v is ABSENT:
                return v
            c = subst(t.a[3], {mk("idx", e, const(0)): const(key), mk("idx", e, const(1)): v})
            return mk("phi", c, v, ABSENT) if c is not TRUE else v
    if t.op in ("param", "attr", "mu", "free"):
        return mk("entry", t, key)
    raise Undecided("dict " + repr(t)[:80])


def same_entry(v, base, key):
    """v is what `base` holds under `key` (possibly with a default when it is absent)"""
    if v.op == "entry":
        return v.a[0] is base and v.a[1] == key
    if v.op == "get":
        return v.a[0] is base and is_const(v.a[1], key)
    if v.op == "idx":
        return v.a[0] is base and is_const(v.a[1], key)
    return False


def gassign(ctx, g):
    """The expression assigned (once, at module level) to a module variable, or None."""
    m = next((m for m in ctx.p.mods.values() if m.short == g.a[0]), None)
    if m is None:
        return None
    out = []
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Assign):
            out += [n.value for t in n.targets if isinstance(t, ast.Name) and t.id == g.a[1]]
        elif isinstance(n, (ast.AnnAssign, ast.AugAssign)) and isinstance(n.target, ast.Name) and n.target.id == g.a[1]:
            out.append(n.value)
        elif isinstance(n, ast.Global) and g.a[1] in n.names:
            out.append(None)
    return out[0] if len(out) == 1 else None


KEYS = {"builtins.str.lower": str.lower, "builtins.str.upper": str.upper, "builtins.len": len, "builtins.ord": ord, "builtins.str.casefold": str.casefold, "builtins.str": str}
STRM = ("find", "index", "rfind", "count", "replace", "split", "lower", "upper", "strip", "startswith", "endswith", "isalpha", "isascii", "isdigit")


class Fails(Exception):
    """evaluating the term at this point raises"""


def pointeval(t, val, leaf=None, r=None, fns=None):
    """Value of a term at a point: `val(term)` gives the quantities (numbers, tuples) that are fixed there, None for others.  Raises Fails where the operation fails for certain, Undecided where it is not known."""
    def lf(c, env):
        if leaf is not None:
            v = leaf(c, env)
            if v is not None:
                return v
        if c.op == "cmp":
            try:
                a, b = go(c.a[1]), go(c.a[2])
            except Undecided:
                return None
            try:
                return {"eq": lambda: a == b, "lt": lambda: a < b, "le": lambda: a <= b, "is": lambda: a is b if a is None or b is None or isinstance(a, bool) else a == b, "in": lambda: a in b}[c.a[0]]()
            except KeyError:
                return None
            except TypeError:
                raise Fails(show(c, 5))
        if c.op in ("truth",):
            return bool(go(c.a[0]))
        if c.op == "isinstance":
            return isinst(c)
        if c.op in ("not", "and", "or", "phi"):
            return None
        try:
            return bool(go(c))
        except Undecided:
            return None

    def go(t):
        v = val(t)
        if v is not None:
            return v
        if t.op == "const":
            return cval(t)
        if t.op == "undef":
            raise Fails("a variable is used that is not set here")
        if t.op == "esc":
            return go(t.a[0])
        if t.op in ("tup", "lst"):
            out = []
            for x in t.a:
                if x.op == "star":
                    out += seq(go(x.a[0]), x)
                else:
                    out.append(go(x))
            return tuple(out)
        if t.op == "phi":
            return go(t.a[1] if truth_of(t.a[0], None, lf) else t.a[2])
        if t.op == "add":
            tot = None
            for x in t.a:
                y = go(x)
                try:
                    tot = y if tot is None else tot + y
                except TypeError:
                    raise Fails(show(t, 5))
            return tot
        if t.op == "neg":
            return -num(go(t.a[0]), t)
        if t.op == "bin" and t.a[0] in ("-", "*", "//", "%"):
            a, b = go(t.a[1]), go(t.a[2])
            if t.a[0] == "*" and (isinstance(a, (tuple, str)) or isinstance(b, (tuple, str))):
                return a * b
            a, b = num(a, t), num(b, t)
            if t.a[0] in ("//", "%") and b == 0:
                raise Fails(show(t, 5))
            return {"-": a - b, "*": a * b, "//": a // b if b else 0, "%": a % b if b else 0}[t.a[0]]
        if t.op == "idx":
            b = go(t.a[0])
            if isinstance(b, (int, float)) or b is None:
                raise Fails(f"{show(t.a[0], 4)} is a number here and cannot be indexed")
            if t.a[1].op == "slice":
                return b[slice(*[go(x) for x in t.a[1].a])]
            i = go(t.a[1])
            if isinstance(b, (tuple, str)) and isinstance(i, int):
                if not -len(b) <= i < len(b):
                    raise Fails(f"{show(t, 5)}: there is no such element")
                return b[i]
            raise Undecided(show(t, 4))
        if t.op == "comp" and len(t.a[2]) == 1 and t.a[0] in ("list", "tuple", "gen", "set"):
            out = []
            for w in points(t.a[2][0]):
                if t.a[3] is TRUE or istrue(t.a[3], w):
                    out.append(pointeval(t.a[1], w, leaf, r, fns))
            return frozenset(out) if t.a[0] == "set" else tuple(out)
        if t.op == "any" and len(t.a) == 2:
            return any(istrue(t.a[0], w) for w in points(t.a[1]))
        if t.op in ("not", "and", "or", "cmp", "truth", "isinstance"):
            return truth_of(t, None, lf)
        if t.op == "join":
            parts = [go(x) for x in t.a[1:]]
            parts = parts[0] if len(parts) == 1 and not isinstance(parts[0], str) else parts
            try:
                return go(t.a[0]).join(parts)
            except TypeError:
                raise Fails(show(t, 5))
        if t.op == "call" and t.a[0].op == "attr" and not t.a[2] and t.a[0].a[1] in STRM:
            b = go(t.a[0].a[0])
            a = [go(x) for x in t.a[1]]
            if isinstance(b, str) or isinstance(b, tuple) and t.a[0].a[1] in ("index", "count"):
                try:
                    v = getattr(b, t.a[0].a[1])(*a)
                except (TypeError, ValueError):
                    raise Fails(show(t, 5))
                return tuple(v) if isinstance(v, list) else v
        if t.op == "call" and fns:
            for n, f in fns.items():
                if is_call(t, n):
                    return f(*[go(x) for x in t.a[1]], **{k: go(x) for k, x in t.a[2]})
        if t.op == "call" and t.a[0].op == "ext" and not t.a[2]:
            f, a = t.a[0].a[0], []
            for x in t.a[1]:
                if x.op == "star":
                    a += seq(go(x.a[0]), x)
                else:
                    a.append(go(x))
            try:
                if f == "builtins.range" and a:
                    return tuple(range(*a))
                if f in ("builtins.list", "builtins.tuple", "builtins.iter") and len(a) <= 1:
                    return tuple(seq(a[0], t)) if a else ()
                if f in ("builtins.set", "builtins.frozenset"):
                    return frozenset(seq(a[0], t)) if a else frozenset()
                if f == "builtins.chr":
                    return chr(a[0])
                if f == "builtins.ord":
                    return ord(a[0])
                if f == "builtins.reversed":
                    return tuple(reversed(seq(a[0], t)))
                if f == "builtins.sorted":
                    return tuple(sorted(seq(a[0], t)))
                if f == "builtins.len":
                    return len(seq(a[0], t))
                if f == "builtins.zip":
                    return tuple(zip(*[seq(x, t) for x in a]))
                if f in ("builtins.int", "operator.index") and len(a) == 1 and isinstance(a[0], (int, float)):
                    return int(a[0])
                if f in ("builtins.max", "builtins.min", "builtins.sum") and a:
                    return {"max": max, "min": min, "sum": sum}[f.split(".")[1]](*a)
            except (TypeError, ValueError):
                raise Fails(show(t, 5))
        if is_call(t, "builtins.sorted") and len(t.a[1]) == 1 and set(dict(t.a[2])) <= {"key", "reverse"}:
            kw = dict(t.a[2])
            key = keyfn(kw.get("key"))
            return tuple(sorted(sorted(seq(go(t.a[1][0]), t)), key=key, reverse=bool(go(kw["reverse"])) if "reverse" in kw else False))
        if is_call(t, "builtins.max", "builtins.min") and len(t.a[1]) == 1 and set(dict(t.a[2])) <= {"key", "default"}:
            kw = dict(t.a[2])
            s = seq(go(t.a[1][0]), t)
            if not s:
                if "default" in kw:
                    return go(kw["default"])
                raise Fails(show(t, 5))
            return (max if is_call(t, "builtins.max") else min)(s, key=keyfn(kw.get("key")))
        if is_call(t, "builtins.next") and len(t.a[1]) in (1, 2) and t.a[1][0].op == "comp":
            s = seq(go(t.a[1][0]), t)
            if s:
                return s[0]
            if len(t.a[1]) == 2:
                return go(t.a[1][1])
            raise Fails(show(t, 5))
        raise Undecided("value of " + show(t, 5))

    def isinst(c):
        if c.a[0].op == "ext":
            if val(c.a[1]) is not None:
                raise Fails(show(c, 4) + ": the second argument is no type")
            raise Undecided(show(c, 4))
        v = go(c.a[0])
        ts = c.a[1].a if c.a[1].op in ("tup", "lst") else (c.a[1],)
        out = False
        for ty in ts:
            n = ty.a[0].split(".")[-1] if ty.op == "ext" else None
            if n in ("int", "str", "float", "Number", "Integral", "bool", "complex", "Real"):
                out = out or isinstance(v, {"int": int, "str": str, "float": float, "bool": bool, "Integral": int}.get(n, (int, float)))
            elif not isinstance(v, (int, float, str)) or n not in ("tuple", "list", "dict", "set", "frozenset", "range", "Iterable", "Sequence"):
                raise Undecided(show(c, 4))
            elif isinstance(v, str) and n in ("Iterable", "Sequence"):
                out = True
        return out

    def keyfn(k):
        """the function used as sort key"""
        if k is None or k.op == "const" and cval(k) is None:
            return None
        if k.op == "ext" and k.a[0] in KEYS:
            return KEYS[k.a[0]]
        if k.op == "clos" and r is not None:
            cl = r.eng.closures[k]
            hole = mk("param", "<key>", "x")
            body = r.eng.freeze(r.eng.apply(cl.node, k, [hole], [], cl.frame, r.state), r.state)
            return lambda x: pointeval(body, lambda z: x if z is hole else val(z), leaf, r, fns)
        raise Undecided("sort key " + show(k, 3))

    def istrue(c, w):
        return bool(pointeval(c, w, leaf, r, fns))

    def binds(it):
        """[(term of the running element, its values)] of an iteration"""
        v = val(it)
        if v is None and it.op == "call" and it.a[0].op == "ext" and it.a[0].a[0] == "builtins.zip" and not it.a[2]:
            out = [b for x in it.a[1] for b in binds(x)]
            n = min((len(v) for _, v in out), default=0)
            return [(e, v[:n]) for e, v in out]
        if v is None and it.op == "call" and it.a[0].op == "ext" and it.a[0].a[0] in ("builtins.list", "builtins.tuple", "builtins.iter", "builtins.enumerate") and len(it.a[1]) == 1 and not it.a[2]:
            inner = binds(it.a[1][0])
            return inner + [(mk("pos", it.a[1][0]), list(range(len(inner[0][1]))))] if it.a[0].a[0].endswith("enumerate") else inner
        vs = list(seq(go(it), it))
        out = [(mk("elem", it, 0), vs), (mk("pos", it), list(range(len(vs))))]
        if v is None and it.op == "comp" and it.a[3] is TRUE and len(it.a[2]) == 1:
            out += binds(it.a[2][0])
        return out

    def points(it):
        bs = binds(it)
        for i in range(len(bs[0][1])):
            now = {e: v[i] for e, v in bs}

            def w(z, now=now):
                x = now.get(z)
                return val(z) if x is None else x
            yield w

    def seq(v, t):
        if isinstance(v, frozenset):
            return sorted(v)
        if isinstance(v, (tuple, str)):
            return v if isinstance(v, str) else list(v)
        if isinstance(v, (int, float)) or v is None:
            raise Fails(f"{show(t, 5)}: a number is no sequence")
        raise Undecided(show(t, 4))

    def num(v, t):
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, (tuple, str)) or v is None:
            raise Fails(f"{show(t, 5)}: not a number")
        raise Undecided(show(t, 4))
    return go(t)
