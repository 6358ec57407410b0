"""Hash-consed value terms: the nodes of the gated value-flow graph.

A term is a description of *where a value comes from* (parameters, calls, operators, gated merges), never a
run-time value.  The constructors below normalise away differences of spelling (``not a == b`` / ``a != b``,
``a > b`` / ``b < a``, ``x.union(y)`` / ``x | y``, f-strings / ``+`` / ``format`` / ``join``, ...), so that rules
can be written against what the code computes.
"""

_TAB = {}
_CNT = [0]


class T:
    __slots__ = ("op", "a", "n")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.n

    def __eq__(self, o):
        return self is o


def mk(op, *a):
    k = (op, a)
    t = _TAB.get(k)
    if t is None:
        t = T()
        t.op, t.a = op, a
        _CNT[0] += 1
        t.n = _CNT[0]
        _TAB[k] = t
    return t


def const(v):
    try:
        hash(v)
    except TypeError:
        v = repr(v)
    return mk("const", type(v).__name__, v)


TRUE, FALSE, NONE = const(True), const(False), const(None)


def is_const(t, *vals):
    if t.op != "const":
        return False
    return not vals or any(type(v) is type(t.a[1]) and v == t.a[1] for v in vals)


def cval(t):
    return t.a[1]


def kids(t):
    """All direct sub-terms."""
    out = []

    def walk(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)

    for x in t.a:
        walk(x)
    return out


def subterms(*ts, stop=None):
    """Every distinct sub-term (pre-order), not descending below terms for which stop() holds."""
    seen, st = set(), list(reversed(ts))
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        yield t
        if stop is None or not stop(t):
            st.extend(reversed(kids(t)))


def contains(t, what):
    if callable(what):
        return any(what(s) for s in subterms(t))
    return any(s is what for s in subterms(t))


def rebuild(t, f):
    """Rebuild t with f applied to direct sub-terms, through the normalising constructors."""

    def m(x):
        if isinstance(x, T):
            return f(x)
        if isinstance(x, tuple):
            return tuple(m(y) for y in x)
        return x

    a = tuple(m(x) for x in t.a)
    if a == t.a:
        return t
    return norm(t.op, *a)


def norm(op, *a):
    if op == "not":
        return NOT(a[0])
    if op == "and":
        return AND(*a)
    if op == "or":
        return OR(*a)
    if op == "phi":
        return phi(*a)
    if op == "cmp":
        return cmp(*a)
    if op == "add":
        return ADD(*a)
    if op == "bin":
        return binop(*a)
    if op == "idx":
        return idx(*a)
    if op == "union":
        return UNION(*a)
    if op == "any":
        return ANY(*a)
    return mk(op, *a)


def subst(t, mp):
    memo = {}

    def go(x):
        if x in mp:
            return mp[x]
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r

    return go(t)


# ---------------------------------------------------------------- booleans
def NOT(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.a[0]
    if c.op == "and":
        return OR(*[NOT(x) for x in c.a])
    if c.op == "or":
        return AND(*[NOT(x) for x in c.a])
    if c.op == "phi":
        return phi(c.a[0], NOT(c.a[1]), NOT(c.a[2])) if all(isbool(x) for x in c.a[1:]) else mk("not", c)
    return mk("not", c)


def isbool(t):
    return t.op in ("not", "and", "or", "cmp", "any") or (t.op == "const" and t.a[0] == "bool") or (
        t.op == "phi" and isbool(t.a[1]) and isbool(t.a[2])
    )


def _nary(op, absorb, unit, xs):
    out = []
    for x in xs:
        if x.op == op:
            out.extend(y for y in x.a if y not in out)
        elif x is absorb:
            return absorb
        elif x is unit or x in out:
            continue
        else:
            out.append(x)
    for x in out:
        if NOT(x) in out:
            return absorb
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return mk(op, *out)


def AND(*xs):
    return _nary("and", FALSE, TRUE, xs)


def OR(*xs):
    return _nary("or", TRUE, FALSE, xs)


def truth(t):
    """The boolean meaning of a term used as a condition."""
    if t.op == "const":
        return TRUE if t.a[1] else FALSE
    if t.op in ("tup", "lst", "set"):
        if any(x.op == "star" for x in t.a):
            return t
        return TRUE if t.a else FALSE
    if t.op == "dict":
        return TRUE if t.a else FALSE
    if t.op == "phi":
        c, a, b = t.a
        a, b = truth(a), truth(b)
        if a is c or a is TRUE:
            return OR(c, b)
        if b is c or b is FALSE:
            return AND(c, a)
        if b is TRUE:
            return OR(NOT(c), a)
        if a is FALSE:
            return AND(NOT(c), b)
        return phi(c, a, b)
    if t.op == "call" and t.a[0].op == "ext":
        n = t.a[0].a[0]
        if n in ("builtins.len", "builtins.bool", "builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset",
                 "builtins.sorted") and len(t.a[1]) == 1 and not t.a[2] and t.a[1][0].op != "star":
            return truth(t.a[1][0])
    return t


def phi(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return phi(c.a[0], b, a)
    a, b = assume(a, c, True), assume(b, c, False)
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return NOT(c)
    if isbool(a) and isbool(b):
        if a is TRUE:
            return OR(c, b)
        if b is FALSE:
            return AND(c, a)
        if a is FALSE:
            return AND(NOT(c), b)
        if b is TRUE:
            return OR(NOT(c), a)
    return mk("phi", c, a, b)


def assume(t, c, pol):
    """Simplify the top-level gates of t knowing condition c has truth value pol."""
    if t.op == "phi":
        d = t.a[0]
        if d is c:
            return t.a[1] if pol else t.a[2]
        if pol and c.op == "and" and d in c.a:
            return t.a[1]
        if not pol and c.op == "or" and d in c.a:
            return t.a[2]
    if t is c and isbool(t):
        return TRUE if pol else FALSE
    return t


FLIP = {"gt": "lt", "ge": "le"}


def cmp(op, a, b):
    if op == "ne":
        return NOT(cmp("eq", a, b))
    if op == "isnot":
        return NOT(cmp("is", a, b))
    if op == "notin":
        return NOT(cmp("in", a, b))
    if op == "gt":
        return cmp("lt", b, a)
    if op == "ge":
        return NOT(cmp("lt", a, b))
    if op == "le":
        return NOT(cmp("lt", b, a))
    if a.op == "const" and b.op == "const":
        x, y = a.a[1], b.a[1]
        try:
            if op == "eq":
                return const(x == y)
            if op == "is":
                return const(type(x) is type(y) and x == y)
            if op == "lt":
                return const(x < y)
            if op == "in" and isinstance(y, str) and isinstance(x, str):
                return const(x in y)
        except TypeError:
            pass
    if op in ("eq", "is"):
        if a is b and op == "is":
            return TRUE
        if a.op == "const" and b.op != "const":
            a, b = b, a
        elif a.op != "const" and b.op != "const" and a.n > b.n:
            a, b = b, a
        # length tests
        if op == "eq" and is_const(b, 0) and _islen(a):
            return NOT(truth(a))
        if op == "eq" and (b in (mk("tup"), mk("lst")) or is_const(b, "")):
            return mk("cmp", "eq", a, b)
        if op == "is" and b is NONE and a.op in ("tup", "lst", "dict", "set", "comp", "new", "add", "union"):
            return FALSE
        if op == "is" and b is NONE and a.op == "phi":
            return phi(a.a[0], cmp("is", a.a[1], b), cmp("is", a.a[2], b))
    if op == "lt":
        if is_const(a, 0) and _islen(b):
            return truth(b)
        if is_const(b, 1) and _islen(a):
            return NOT(truth(a))
    if op == "in":
        if b.op in ("tup", "lst", "set") and not any(x.op == "star" for x in b.a):
            return OR(*[cmp("eq", a, x) if not is_const(x, None) else cmp("is", a, x) for x in b.a])
        if b.op == "call" and b.a[0].op == "ext" and not b.a[2] and len(b.a[1]) == 1 and b.a[1][0].op != "star" and b.a[0].a[0] in (
                "builtins.set", "builtins.frozenset", "builtins.list", "builtins.tuple", "builtins.sorted"):
            return cmp("in", a, b.a[1][0])
        if b.op == "call" and b.a[0].op == "attr" and b.a[0].a[1] == "keys" and not b.a[1]:
            return cmp("in", a, b.a[0].a[0])
    return mk("cmp", op, a, b)


def _islen(t):
    return t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "builtins.len"


def ANY(cond, *iters):
    if cond is FALSE:
        return FALSE
    return mk("any", cond, *iters)


# ---------------------------------------------------------------- arithmetic, sets, strings
def ADD(*xs):
    out = []
    for x in xs:
        for y in (x.a if x.op == "add" else (x,)):
            if is_const(y, "") and (len(xs) > 1):
                if any(z is not y for z in xs):
                    continue
            if out and y.op == "const" and out[-1].op == "const" and type(cval(y)) is type(cval(out[-1])) and isinstance(
                    cval(y), (str, int)) and not isinstance(cval(y), bool):
                out[-1] = const(cval(out[-1]) + cval(y))
            elif out and y.op == out[-1].op and y.op in ("tup", "lst"):
                out[-1] = mk(y.op, *(out[-1].a + y.a))
            elif y.op in ("tup", "lst") and not y.a and out:
                continue
            else:
                out.append(y)
    if len(out) > 1 and out[0].op in ("tup", "lst") and not out[0].a:
        out = out[1:]
    if len(out) == 1:
        return out[0]
    if not out:
        return const("")
    return mk("add", *out)


def UNION(*xs):
    out = []
    for x in xs:
        for y in (x.a if x.op == "union" else (x,)):
            if y not in out:
                out.append(y)
    if len(out) == 1 and out[0].op != "star":
        return out[0]
    return mk("union", *out)


def binop(op, a, b):
    if op == "+":
        return ADD(a, b)
    if op == "|":
        return UNION(a, b)
    if op == "-" and a.op == "const" and b.op == "const":
        try:
            return const(cval(a) - cval(b))
        except TypeError:
            pass
    if op == "*" and a.op == "const" and b.op == "const" and isinstance(cval(a), (int, float)) and isinstance(cval(b), (int, float)):
        return const(cval(a) * cval(b))
    if op in ("*", "&") and b.op == "const" and a.op != "const" and op == "*":
        a, b = b, a
    return mk("bin", op, a, b)


def idx(a, i):
    if a.op in ("tup", "lst") and i.op == "const" and isinstance(cval(i), int) and not any(x.op == "star" for x in a.a):
        if -len(a.a) <= cval(i) < len(a.a):
            return a.a[cval(i)]
    if a.op == "add" and i.op == "const" and cval(i) == -1 and a.a[-1].op in ("tup", "lst") and a.a[-1].a:
        return a.a[-1].a[-1]
    if a.op == "dict" and i.op == "const":
        for k, v in a.a:
            if k is i:
                return v
    if a.op == "setitem":
        c, k, v = a.a
        if k is i:
            return v
        if k.op == "const" and i.op == "const":
            return idx(c, i)
    if a.op == "phi" and any(x.op == "setitem" and x.a[1] is i for x in a.a[1:]):
        return phi(a.a[0], idx(a.a[1], i), idx(a.a[2], i))
    if a.op == "phi" and (a.a[1].op in ("tup", "lst") or a.a[2].op in ("tup", "lst") or i.op == "const" and a.a[1].op == a.a[2].op == "call"):
        return phi(a.a[0], idx(a.a[1], i), idx(a.a[2], i))
    if i.op == "pos" and i.a[0] is a:
        return mk("elem", a, 0)
    return mk("idx", a, i)


# ---------------------------------------------------------------- printing
def show(t, d=9):
    if not isinstance(t, T):
        return str(t)
    if d <= 0:
        return "…"
    s = lambda x: show(x, d - 1)  # noqa: E731
    o, a = t.op, t.a
    if o == "const":
        return repr(a[1])
    if o == "param":
        return a[-1]
    if o in ("ext", "func", "class", "mod"):
        return a[0].replace("builtins.", "")
    if o == "gvar":
        return f"{a[1]}"
    if o == "not":
        return f"not({s(a[0])})"
    if o in ("and", "or"):
        return "(" + f" {o} ".join(map(s, a)) + ")"
    if o == "cmp":
        return f"({s(a[1])} {dict(eq='==', lt='<').get(a[0], a[0])} {s(a[2])})"
    if o == "phi":
        return f"[{s(a[0])} ? {s(a[1])} : {s(a[2])}]"
    if o == "bin":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o == "add":
        return "(" + " + ".join(map(s, a)) + ")"
    if o == "union":
        return "(" + " | ".join(map(s, a)) + ")"
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o == "idx":
        return f"{s(a[0])}[{s(a[1])}]"
    if o in ("tup", "lst", "set"):
        b = {"tup": "()", "lst": "[]", "set": "{}"}[o]
        return b[0] + ", ".join(map(s, a)) + b[1]
    if o == "star":
        return "*" + s(a[0])
    if o == "call":
        return f"{s(a[0])}(" + ", ".join([s(x) for x in a[1]] + [f"{k or '**'}={s(v)}" for k, v in a[2]]) + ")"
    if o == "comp":
        return f"{a[0]}<{s(a[1])} for {', '.join(map(s, a[2]))}" + (f" if {s(a[3])}" if a[3] is not TRUE else "") + ">"
    if o == "elem":
        return f"each({s(a[0])})"
    if o == "pos":
        return f"posof({s(a[0])})"
    if o == "mu":
        return f"µ{a[0]}.{a[1]}"
    return f"{o}(" + ", ".join(s(x) if isinstance(x, T) else str(x) if not isinstance(x, tuple) else "(" + ",".join(
        s(y) if isinstance(y, T) else str(y) for y in x) + ")" for x in a) + ")"
