"""C10: renaming indices never merges two indices nor splits one."""
from sa.engine import is_call, mcall
from sa.kit import Undecided, pick, show, strip
from sa.src import AnalysisBroken
from sa.terms import FALSE, NONE, TRUE, T, const, contains, cval, is_const, mk, subst, subterms
from .common import call_arg, cases

DESC = ("Injectivity analysis of every index renaming: the pieces of the number-to-symbol function are compared as intervals of code points; each renaming table must give "
        "distinct keys strictly increasing arguments of that function (a position, or the size of a table that grows with every new key), leave the punctuation of an equation alone "
        "and be applied to the whole equation; symbols made for ellipses must avoid every symbol in use.")
PUNCT = set(".,->")
SYM = "parser.get_symbol"
OP = frozenset({SYM})


def strval(ctx, r, t):
    """the value of a constant string (literal or module constant), or None"""
    if t.op == "const" and isinstance(cval(t), str):
        return cval(t)
    if t.op == "gvar":
        v = r.eng.global_value(t)
        if v is not None and v is not t:
            return strval(ctx, r, v)
    if t.op == "ext" and t.a[0] in ("string.ascii_letters", "string.ascii_lowercase", "string.ascii_uppercase"):
        import string
        return getattr(string, t.a[0].split(".")[1])
    if t.op == "add":
        xs = [strval(ctx, r, x) for x in t.a]
        return None if None in xs else "".join(xs)
    if is_call(t, "builtins.set", "builtins.frozenset", "builtins.list", "builtins.tuple") and len(t.a[1]) == 1:
        return strval(ctx, r, t.a[1][0])
    if t.op in ("tup", "lst", "set") and all(x.op == "const" and isinstance(cval(x), str) for x in t.a):
        return "".join(cval(x) for x in t.a)
    return None


def linear(t, x):
    """t = x + c -> c, else None"""
    if t is x:
        return 0
    if t.op == "add" and len(t.a) == 2:
        for p, q in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
            if q.op == "const" and isinstance(cval(q), int):
                c = linear(p, x)
                if c is not None:
                    return c + cval(q)
    if t.op == "bin" and t.a[0] == "-" and t.a[2].op == "const" and isinstance(cval(t.a[2]), int):
        c = linear(t.a[1], x)
        return None if c is None else c - cval(t.a[2])
    return None


# ---------------------------------------------------------------- numbers to symbols
def r_symbol(ctx):
    R = "number to symbol"
    r = ctx.run(SYM, public=True)
    t = r.eng.freeze(r.ret, r.state)
    lens = {}
    for u in subterms(t):
        if is_call(u, "builtins.len") and len(u.a[1]) == 1 and strval(ctx, r, u.a[1][0]) is not None:
            lens[u] = const(len(strval(ctx, r, u.a[1][0])))
    t = subst(t, lens)
    i = r.params[ctx.p.fn(SYM).params()[0]]
    loc = ctx.p.fn(SYM).loc
    pieces = []
    for lits, v in cases(t):
        lo, hi = 0, None
        for c, pos in lits:
            if c.op == "cmp" and c.a[0] == "lt" and c.a[1] is i and c.a[2].op == "const":
                k = cval(c.a[2])
                if pos:
                    hi = k - 1 if hi is None else min(hi, k - 1)
                else:
                    lo = max(lo, k)
            elif c.op == "cmp" and c.a[0] == "lt" and c.a[2] is i and c.a[1].op == "const":
                k = cval(c.a[1])
                if pos:
                    lo = max(lo, k + 1)
                else:
                    hi = k if hi is None else min(hi, k)
            else:
                raise Undecided("condition " + show(c, 4))
        if hi is not None and hi < lo:
            continue
        if v.op == "idx" and linear(v.a[1], i) is not None:
            s = strval(ctx, r, v.a[0])
            if s is None:
                raise Undecided("symbols " + show(v, 3))
            d = linear(v.a[1], i)
            if hi is None or hi + d >= len(s):
                ctx.bad(R, "every number has a symbol", loc, f"numbers from {len(s) - d} on have none ({len(s)} symbols)")
                hi = len(s) - d - 1
            if lo + d < 0:
                raise Undecided("negative position")
            pieces.append((lo, hi, [ord(c) for c in s[lo + d:hi + d + 1]], None, v))
        elif is_call(v, "builtins.chr") and linear(v.a[1][0], i) is not None:
            d = linear(v.a[1][0], i)
            pieces.append((lo, hi, None, (lo + d, None if hi is None else hi + d), v))
        else:
            raise Undecided("symbol " + show(v, 4))
    pieces.sort(key=lambda p: p[0])
    for a, b in zip(pieces, pieces[1:]):
        ctx.put(a[1] is not None and a[1] + 1 == b[0], R, "the pieces cover every number", loc, f"between {a[1]} and {b[0]}")
    if not pieces:
        raise Undecided("no piece")
    for p in pieces:
        if p[2] is not None:
            dup = {chr(c) for c in p[2] if p[2].count(c) > 1}
            ctx.put(not dup, R, "listed symbols are distinct", loc, f"{sorted(dup)} occur twice")
            ctx.put(not ({chr(c) for c in p[2]} & (PUNCT | {" "})), R, "no symbol is punctuation of an equation", loc, show(p[4], 3))
        else:
            lo, hi = p[3]
            hit = [c for c in PUNCT | {" "} if ord(c) >= lo and (hi is None or ord(c) <= hi)]
            ctx.put(not hit, R, "no symbol is punctuation of an equation", loc, f"{show(p[4], 3)} reaches {hit}")
    for n, p in enumerate(pieces):
        for q in pieces[n + 1:]:
            if p[2] is not None and q[2] is not None:
                both = set(p[2]) & set(q[2])
            elif p[2] is None and q[2] is None:
                (a, b), (c, d) = p[3], q[3]
                both = {max(a, c)} if (b is None or c <= b) and (d is None or a <= d) else set()
            else:
                lst, (a, b) = (p[2], q[3]) if p[2] is not None else (q[2], p[3])
                both = {c for c in lst if c >= a and (b is None or c <= b)}
            ctx.put(not both, R, "different numbers have different symbols", loc, f"{show(p[4], 3)} and {show(q[4], 3)} both give code point(s) {sorted(both)[:4]}")


# ---------------------------------------------------------------- renaming tables
def excluded(ctx, r, seq, src):
    """(set of characters of src left out, exact) for a collection of the characters of src, or None"""
    seq = strip(seq)
    if seq is src:
        return set()
    if seq.op == "bin" and seq.a[0] == "-":
        base = excluded(ctx, r, seq.a[1], src)
        s = strval(ctx, r, strip(seq.a[2]))
        return None if base is None or s is None else base | set(s)
    if seq.op == "discarded":
        base = excluded(ctx, r, seq.a[0], src)
        s = strval(ctx, r, seq.a[1])
        return None if base is None or s is None else base | {s}
    if seq.op == "comp" and len(seq.a[2]) == 1 and seq.a[1] is mk("elem", seq.a[2][0], 0):
        base = excluded(ctx, r, seq.a[2][0], src)
        s = not_in(ctx, r, seq.a[3], seq.a[1])
        return None if base is None or s is None else base | s
    if is_call(seq, "builtins.dict.fromkeys") and seq.a[1]:
        return excluded(ctx, r, seq.a[1][0], src)
    c = mcall(seq, "replace")
    if c is not None and len(seq.a[1]) == 2 and is_const(seq.a[1][1], ""):
        base = excluded(ctx, r, c if isinstance(c, T) else seq.a[0].a[0], src)
        s = strval(ctx, r, seq.a[1][0])
        return None if base is None or s is None else base | set(s)
    return None


def not_in(ctx, r, cond, x):
    """characters excluded by a condition `x not in S (and ...)`"""
    out = set()
    for c in cond.a if cond.op == "and" else (cond,):
        if c is TRUE:
            continue
        if c.op == "not" and c.a[0].op == "cmp" and c.a[0].a[0] in ("in", "eq"):
            o, a, b = c.a[0].a
            if o == "in" and a is x:
                s = strval(ctx, r, strip(b))
            elif o == "eq" and x in (a, b):
                s = strval(ctx, r, b if a is x else a)
            else:
                return None
            if s is None:
                return None
            out |= set(s)
        else:
            return None
    return out


def symarg(v):
    """argument of get_symbol, or None"""
    if is_call(v, SYM) and len(v.a[1]) == 1:
        return v.a[1][0]
    return None


def pos_of_seq(arg, it):
    """does arg count the elements of the iteration? (True / False / None)"""
    seq = it
    if is_call(it, "builtins.enumerate"):
        seq = it.a[1][0]
    ok = [mk("pos", seq), mk("pos", strip(seq)), mk("idx", mk("elem", it, 0), const(0))] + [u for u in subterms(arg) if u.op == "pos"]
    for p in ok:
        if linear(arg, p) is not None:
            return True
    if arg.op == "const":
        return False
    if arg.op == "bin" and arg.a[0] in ("%", "//", "&", ">>") and any(linear(arg.a[1], p) is not None for p in ok):
        return False
    return None


def table(ctx, r, D):
    """(injective: True/False/None, why, key sequence or None) of a renaming table"""
    if D.op == "comp" and D.a[0] == "dict" and len(D.a[2]) == 1:
        k, v = (D.a[1].a if D.a[1].op == "tup" else D.a[1]) if isinstance(D.a[1], T) else D.a[1]
        it = D.a[2][0]
        seq = it.a[1][0] if is_call(it, "builtins.enumerate") else it
        a = symarg(v)
        if a is None:
            s = strval(ctx, r, v.a[0]) if v.op == "idx" else None
            if s is not None:
                return False, f"only {len(s)} symbols to rename to", seq
            return None, "renames to " + show(v, 3), seq
        if is_call(it, "builtins.zip"):
            return None, "zip", None
        w = pos_of_seq(a, it)
        return w, f"renames to the symbol number {show(a, 3)}", (seq, D.a[3])
    if D.op == "out":
        # a table filled in a loop
        lp = r.eng.loops.get(D.a[0])
        mus = [m for m, s in (lp.step.items() if lp is not None else ()) if s is D.a[2]]
        if mus:
            return grown(ctx, r, D, lp, mus[0])
    if is_call(D, "builtins.dict") and len(D.a[1]) == 1:
        D = D.a[1][0]
    if is_call(D, "builtins.zip") and len(D.a[1]) == 2:
        ks, vs = D.a[1]
        s = strval(ctx, r, vs)
        if s is not None:
            return False, f"only {len(s)} symbols to rename to; the others are left as they are", (ks, TRUE)
        if vs.op == "comp" and len(vs.a[2]) == 1 and symarg(vs.a[1]) is not None:
            return pos_of_seq(symarg(vs.a[1]), vs.a[2][0]) or None, show(vs, 3), (ks, TRUE)
    if D.op == "dict" and not D.a:
        return False, "the table is empty: no index is renamed", None
    return None, "table " + show(D, 4), None


def grown(ctx, r, D, lp, m):
    """a table filled while walking over the symbols: what happens for punctuation, a new index and an index met before"""
    it = lp.iter
    x = mk("elem", it, 0)
    ini = r.eng.freeze(lp.init[m], r.state)
    kept = set()                 # punctuation mapped to itself from the start
    if ini.op == "comp" and ini.a[0] == "dict" and len(ini.a[2]) == 1:
        k, v = ini.a[1].a if isinstance(ini.a[1], T) else ini.a[1]
        s = strval(ctx, r, strip(ini.a[2][0]))
        if s is None or k is not v or k is not mk("elem", ini.a[2][0], 0):
            return None, "initial table " + show(ini, 3), None
        kept = set(s)
    elif ini.op == "dict" and ini.a:
        for k, v in ini.a:
            if k is not v or k.op != "const":
                return None, "initial table " + show(ini, 3), None
            kept.add(cval(k))
    elif ini.op != "dict":
        return None, "initial table " + show(ini, 3), None

    def step_for(ch, known):
        def leaf(c, env):
            if c.op == "cmp" and c.a[0] in ("in", "eq") and x in c.a[1:]:
                o = c.a[2] if c.a[1] is x else c.a[1]
                if o is m or is_call(o, "builtins.set", "builtins.list") and o.a[1][0] is m:
                    return known
                s = strval(ctx, r, strip(o))
                if s is not None:
                    return ch in s if ch else False
            if c.op == "cmp" and c.a[0] == "is" and NONE in c.a[1:]:
                g = c.a[1] if c.a[2] is NONE else c.a[2]
                if g.op == "get" and g.a[0] is m and g.a[1] is x:
                    return not known
            return None
        return pick(lp.step[m], leaf)
    try:
        excl = set()
        for ch in sorted(PUNCT):
            v = step_for(ch, ch in kept)
            if v is m or v.op == "setitem" and v.a[0] is m and v.a[1] is x and v.a[2] is x:
                excl.add(ch)
        new, old = step_for(None, False), step_for(None, True)
    except Undecided as u:
        return None, str(u), None
    if new is m:
        return False, "a new index gets no symbol", (it, excl)
    for v in (new, old):
        if v is not m and (v.op != "setitem" or v.a[0] is not m or v.a[1] is not x):
            return None, "update " + show(v, 3), None
    a = symarg(new.a[2])
    if a is None:
        lst = strval(ctx, r, new.a[2].a[0]) if new.a[2].op == "idx" else None
        if lst is not None:
            return False, f"only {len(lst)} symbols to rename to", (it, excl)
        return None, "renames to " + show(new.a[2], 3), None
    def nodup(t):
        """a sequence that holds nothing twice"""
        if is_call(t, "builtins.sorted", "builtins.list", "builtins.tuple", "builtins.reversed") and t.a[1]:
            return nodup(t.a[1][0])
        if is_call(t, "builtins.set", "builtins.frozenset", "builtins.dict.fromkeys", "collections.Counter"):
            return True
        return t.op == "set" or t.op == "comp" and t.a[0] == "set" or t.op == "bin" and t.a[0] == "-" and nodup(t.a[1])
    again = not nodup(it) and old is not m and not (old.a[2].op in ("idx", "get") and old.a[2].a[0] is m)
    size = mk("call", mk("ext", "builtins.len"), (m,), ())
    if linear(a, size) is not None or is_call(a, "builtins.len") and a.a[1][0] is m:
        if again:
            return False, "an index met again gets a new symbol, which the next new index gets as well", (it, excl)
    elif a.op == "next" or is_call(a, "builtins.next") or a.op == "pos":
        pass
    elif any(u.op == "mu" and linear(a, u) is not None for u in subterms(a)):
        c = next(u for u in subterms(a) if u.op == "mu" and linear(a, u) is not None)
        st = lp.step.get(c)
        if st is None:
            return None, "counter", None

        def leaf(k, env):
            if k.op == "cmp" and k.a[0] in ("in", "eq") and x in k.a[1:]:
                o = k.a[2] if k.a[1] is x else k.a[1]
                return False if o is m or strval(ctx, r, strip(o)) is not None else None
            return None
        try:
            d = linear(pick(st, leaf), c)
        except Undecided as u:
            return None, str(u), None
        if d is None or d < 0:
            return None, "counter " + show(st, 3), None
        if d == 0:
            return False, "the counter does not advance", (it, excl)
    elif a.op == "const":
        return False, "every index gets the symbol number " + show(a), (it, excl)
    elif a.op == "bin" and a.a[0] in ("%", "//", "&", ">>") and contains(a.a[1], m):
        return False, "symbol numbers repeat: " + show(a, 3), (it, excl)
    else:
        return None, "renames to the symbol number " + show(a, 3), None
    return True, "", (it, excl)


def applied(t):
    """join('', (D.get(x, x) for x in S)) -> (D, S, fallback ok)"""
    if t.op != "join" or not is_const(t.a[0], ""):
        return None
    c = t.a[1]
    if c.op != "comp" or len(c.a[2]) != 1:
        return None
    S = c.a[2][0]
    x = mk("elem", S, 0)
    e = c.a[1]
    if e.op == "get" and e.a[1] is x:
        return e.a[0], S, e.a[2] is x, c.a[3]
    if e.op == "phi":
        for a, b in ((e.a[1], e.a[2]), (e.a[2], e.a[1])):
            if a.op == "idx" and a.a[1] is x and b is x:
                return a.a[0], S, True, c.a[3]
    if e.op == "idx" and e.a[1] is x:
        return e.a[0], S, None, c.a[3]
    return None


def rename_rule(ctx, R, fq):
    r = ctx.run(fq, public=True, opaque=OP)
    t = r.eng.freeze(r.ret, r.state)
    loc = ctx.p.fn(fq).loc
    src = r.params[ctx.p.fn(fq).params()[0]]
    a = applied(t)
    name = fq.split(".")[-1]
    if a is None:
        raise Undecided(f"{fq}: result {show(t, 4)}")
    D, S, fb, cond = a
    ctx.put(True if S is src and cond is TRUE else None, R, f"{name}: the whole equation is renamed", loc, "renames " + show(S, 3))
    if fb is False:
        ctx.bad(R, f"{name}: punctuation is left alone", loc, "what is not in the table is replaced")
    inj, why, keys = table(ctx, r, D)
    ctx.put(inj, R, f"{name}: different indices get different symbols", loc, why)
    if keys is None:
        ctx.unk(R, f"{name}: exactly the indices are renamed", loc, why)
        return
    seq, extra = keys
    ex = excluded(ctx, r, seq, src)
    if isinstance(extra, T):
        e2 = not_in(ctx, r, extra, mk("elem", seq, 0)) if extra is not TRUE else set()
    else:
        e2 = extra
    if ex is None or e2 is None:
        ctx.unk(R, f"{name}: exactly the indices are renamed", loc, "keys " + show(seq, 4))
        return
    ex = ex | e2
    miss = PUNCT - ex
    over = ex - PUNCT - {" "}
    ctx.put(not miss, R, f"{name}: punctuation is left alone", loc, f"{sorted(miss)} are renamed like indices")
    ctx.put(not over, R, f"{name}: every index is renamed", loc, f"{sorted(over)} are left as they are and may coincide with a new symbol")


def r_rename(ctx):
    R = "renaming of equations"
    for fq in ("parser.convert_to_valid_einsum_chars", "parser.alpha_canonicalize"):
        if not ctx.has(fq):
            raise AnalysisBroken(fq + " is missing")
        try:
            rename_rule(ctx, R, fq)
        except Undecided as u:
            ctx.unk(R, fq, ctx.p.fn(fq).loc, str(u))


# ---------------------------------------------------------------- interleaved input
def r_interleaved(ctx):
    R = "interleaved input"
    fq = "parser.convert_interleaved_input"
    r = ctx.run(fq, public=True, opaque=OP | {"parser.convert_subscripts"})
    loc = ctx.p.fn(fq).loc
    pairing(ctx, R, r, loc)
    fn = ctx.p.fns.get("parser.convert_subscripts")
    calls = [e for e in r.events if e.kind == "call" and e.callee is mk("func", "parser.convert_subscripts")]
    if not calls or fn is None:
        raise Undecided("translation of the subscripts")
    ps = fn.params()
    maps = {call_arg(e, fn, ps[1]) for e in calls}
    ctx.put(True if len(maps) == 1 else None, R, "one table for all operands and the output", loc, "several tables")
    for D in maps:
        inj, why, keys = table(ctx, r, D)
        ctx.put(inj, R, "different indices get different symbols", loc, why)
    r2 = ctx.run("parser.convert_subscripts")
    t = r2.eng.freeze(r2.ret, r2.state)
    sub, mp = (r2.params[p] for p in ps[:2])
    loc2 = fn.loc
    if t.op == "out":
        lp = r2.eng.loops.get(t.a[0])
        m = next((m for m, s in lp.step.items() if s is t.a[2]), None)
        if m is not None and is_const(lp.init.get(m), "") and lp.iter is sub:
            translate(ctx, R, t.a[2], m, mk("elem", sub, 0), mp, loc2)
            return
    if t.op == "join" and is_const(t.a[0], "") and t.a[1].op == "comp" and t.a[1].a[2] == (sub,) and t.a[1].a[3] is TRUE:
        translate(ctx, R, t.a[1].a[1], None, mk("elem", sub, 0), mp, loc2)
        return
    ctx.unk(R, "translation of a subscript list", loc2, show(t, 4))


def pairing(ctx, R, r, loc):
    """operands are the even entries, their subscripts the odd ones"""
    src = next(iter(r.params.values()))
    for lp in r.eng.loops.values():
        apps = {}
        for m, st in lp.step.items():
            k = r.eng.muinfo.get(m, (None,))[0]
            if st.op == "append" and st.a[0] is m:
                apps[m] = st.a[1]
        pops = [m for m, st in lp.step.items() if st.op == "popped" and r.eng.muinfo.get(m, (None,))[0] == "heap"]
        if len(apps) != 2 or len(pops) != 1:
            continue
        q = pops[0]
        z = const(0)
        first, second = mk("idx", q, z), mk("idx", mk("popped", q, z), z)
        got = {m: 0 if v is first else 1 if v is second else None for m, v in apps.items()}
        ini = r.eng.freeze(lp.init[q], r.state)
        if strip(ini) is not src or None in got.values() or lp.step[q] is not mk("popped", mk("popped", q, z), z):
            ctx.unk(R, "operands and subscripts alternate", loc, show(lp.step[q], 4))
            return
        subs_m = [m for m, v in got.items() if v == 1]
        t = r.eng.freeze(r.ret, r.state)
        if t.op == "tup" and len(t.a) == 2:
            ops = strip(t.a[1])
            okk = None
            if ops.op == "out":
                okk = True if ops.a[2] is lp.step[next(m for m, v in got.items() if v == 0)] else False if ops.a[2] is lp.step[subs_m[0]] else None
            ctx.put(okk, R, "operands and subscripts alternate", loc, "returns " + show(t.a[1], 3))
        return
    ctx.unk(R, "operands and subscripts alternate", loc, "")


def translate(ctx, R, step, m, x, mp, loc):
    ell = None
    for lits, v in cases(step):
        if m is not None:
            if v.op == "add" and v.a[0] is m and len(v.a) == 2:
                v = v.a[1]
            elif v is m:
                ctx.bad(R, "every entry of a subscript list is translated", loc, "an entry is skipped")
                continue
            else:
                ctx.put(False if v.op == "add" and v.a[-1] is m else None, R, "entries keep their order", loc, show(v, 3))
                continue
        is_ell = None
        for c, pos in lits:
            if c.op == "cmp" and c.a[0] in ("is", "eq") and x in c.a[1:]:
                is_ell = pos
            if c.op == "not" and c.a[0].op == "cmp" and c.a[0].a[0] in ("is", "eq") and x in c.a[0].a[1:]:
                is_ell = not pos
        if is_const(v, "..."):
            ctx.put(is_ell, R, "an ellipsis stays an ellipsis", loc, "other entries become ellipses")
        elif v.op == "const" and is_ell is not None:
            ctx.bad(R, "an ellipsis stays an ellipsis", loc, "an entry is translated to " + show(v))
        elif v is mk("idx", mp, x):
            ctx.put(not is_ell, R, "an index is translated by the table", loc, "an ellipsis is looked up")
        elif v.op == "get" and v.a[0] is mp and v.a[1] is x:
            ctx.put(True if not contains(v.a[2], x) else None, R, "an index is translated by the table", loc, show(v, 3))
        else:
            ctx.unk(R, "translation of an entry", loc, show(v, 3))


# ---------------------------------------------------------------- new symbols
def r_unused(ctx):
    R = "new symbols"
    fq = "parser.gen_unused_symbols"
    r = ctx.run(fq, public=True, opaque=OP)
    fn = ctx.p.fn(fq)
    used, n = (r.params[p] for p in fn.params()[:2])
    ys = [e for e in r.events if e.kind == "yield"]
    t = r.eng.freeze(r.ret, r.state)
    if not ys:
        raise Undecided("generator of unused symbols: " + show(t, 4))
    for e in ys:
        v = e.value
        a = symarg(v)
        fresh = any(f.op == "not" and f.a[0].op == "cmp" and f.a[0].a[0] == "in" and f.a[0].a[1] is v and strip(f.a[0].a[2]) is used for f in flat(e.facts))
        other = any(f.op == "cmp" and f.a[0] == "in" and f.a[1] is v for f in flat(e.facts))
        seen = any(contains(f, used) for f in e.facts)
        ctx.put(True if fresh else False if other or not seen else None, R, "only symbols not in use", e.loc, "a symbol is handed out without having been checked against those in use")
        if a is None or not e.loops:
            ctx.unk(R, "all different", e.loc, show(v, 3))
            continue
        lp = r.eng.loops[e.loops[-1][0]]
        if a.op == "mu" and a in lp.step:
            for lits, w in cases(lp.step[a]):
                d = linear(w, a)
                ctx.put(None if d is None else d > 0, R, "all different", e.loc, "the next symbol may be the same one again: " + show(w, 3))
        elif a.op in ("elem", "pos", "next"):
            ctx.ok(R, "all different", e.loc)
        else:
            ctx.unk(R, "all different", e.loc, show(a, 3))
        cnt(ctx, R, r, e, lp, v, used, n)


def flat(facts):
    for f in facts:
        if f.op == "and":
            yield from f.a
        else:
            yield f


def cnt(ctx, R, r, e, lp, v, used, n):
    """as many as asked for"""
    for f in flat(e.facts):
        if f.op == "cmp" and f.a[0] == "lt" and f.a[1].op == "mu" and f.a[1] in lp.step and f.a[2] is n:
            c = f.a[1]
            ini = lp.init.get(c)
            ctx.put(None if ini is None or ini.op != "const" else cval(ini) <= 0, R, "as many as asked for", e.loc, "counting starts at " + show(ini))
            for lits, w in cases(lp.step[c]):
                inused = any(pos and x.op == "cmp" and x.a[0] == "in" and x.a[1] is v for x, pos in lits)
                d = linear(w, c)
                if inused:
                    ctx.put(None if d is None else d <= 0, R, "as many as asked for", e.loc, "symbols passed over are counted")
                else:
                    ctx.put(None if d is None else d <= 1 and (d == 1 or len(cases(lp.step[c])) == 1 and False), R, "as many as asked for", e.loc, f"counts {d} for a symbol handed out")
            return
    ctx.unk(R, "as many as asked for", e.loc, "")


# ---------------------------------------------------------------- symbols made for ellipses
def r_ellipsis(ctx):
    R = "symbols for ellipses"
    fq = "parser.parse_einsum_input"
    r = ctx.run(fq, public=True, opaque=OP | {"parser.gen_unused_symbols", "parser.find_output_str", "parser.convert_interleaved_input", "parser.get_shape"})
    fn = ctx.p.fns.get("parser.gen_unused_symbols")
    calls = [e for e in r.events if e.kind == "call" and e.callee is mk("func", "parser.gen_unused_symbols")]
    if not calls or fn is None:
        raise Undecided("no symbols are made for ellipses")
    for e in calls:
        u, n = (call_arg(e, fn, p) for p in fn.params()[:2])
        removed, base = set(), u
        part = False
        while True:
            c = mcall(base, "replace")
            if c is not None and len(base.a[1]) == 2 and is_const(base.a[1][1], ""):
                s = strval(ctx, r, base.a[1][0])
                if s is None:
                    raise Undecided("symbols in use: " + show(u, 4))
                removed |= set(s)
                base = base.a[0].a[0]
            elif base.op == "bin" and base.a[0] == "-":
                s = strval(ctx, r, strip(base.a[2]))
                if s is None:
                    raise Undecided("symbols in use: " + show(u, 4))
                removed |= set(s)
                base = base.a[1]
            elif is_call(base, "builtins.set", "builtins.frozenset", "builtins.sorted", "builtins.list") and len(base.a[1]) == 1:
                base = base.a[1][0]
            elif base.op == "join" and is_const(base.a[0], ""):
                base = base.a[1]
            elif base.op == "comp" and len(base.a[2]) == 1 and base.a[1] is mk("elem", base.a[2][0], 0):
                s = not_in(ctx, r, base.a[3], base.a[1])
                if s is None:
                    raise Undecided("symbols in use: " + show(u, 4))
                removed |= s
                base = base.a[2][0]
            elif base.op == "idx" and base.a[1].op == "const" and (mcall(base.a[0], "split") is not None or mcall(base.a[0], "partition") is not None):
                part = True
                base = base.a[0].a[0].a[0]
            else:
                break
        subs = whole_equation(r, fn)
        isit = any(base is s for s in subs)
        over = removed - PUNCT - {" "}
        ctx.put(False if isit and (over or part) else True if isit else (False if base.op == "const" else None), R, "avoid every symbol in the equation", e.loc,
                f"{sorted(over)} may be used again" if over else "only a part of the equation is looked at: " + show(u, 4) if part else "symbols in use: " + show(u, 4))
        # enough of them
        okn = None
        if is_call(n, "builtins.max") and len(n.a[1]) == 1 and n.a[1][0].op == "comp":
            c = n.a[1][0]
            x = mk("elem", c.a[2][0], 0)
            if is_call(c.a[1], "builtins.len") and c.a[1].a[1][0] is x and c.a[3] is TRUE:
                okn = True
        if is_call(n, "builtins.min"):
            okn = False
        ctx.put(okn, R, "enough for the operand with most dimensions", e.loc, "makes " + show(n, 4))


def whole_equation(r, fn):
    """terms that stand for the complete equation as given"""
    out = set()
    for e in r.events:
        if e.kind == "call" and e.name in ("count", "split", "replace", "partition") and e.recv is not None and e.args and e.args[0].op == "const" and cval(e.args[0]) in ("->", "-", ">"):
            out.add(e.recv)
    for f in (f for e in r.events for f in e.facts):
        for s in subterms(f):
            if s.op == "cmp" and s.a[0] == "in" and s.a[1].op == "const" and cval(s.a[1]) in ("->", "-", ">"):
                out.add(s.a[2])
    return out


# ---------------------------------------------------------------- users of the renaming
def r_users(ctx):
    R = "use of a renamed equation"
    conv = mk("func", "parser.convert_to_valid_einsum_chars")
    for fq, computing in (("contract._einsum", None), ("backends.torch.einsum", "einsum")):
        if not ctx.has(fq):
            continue
        r = ctx.run(fq, opaque=OP | {"parser.convert_to_valid_einsum_chars", "parser.has_valid_einsum_chars_only", "parser.find_output_str", "backends.dispatch.get_func",
                                      "backends.torch._get_torch_and_device", "contract._filter_einsum_defaults"})
        n = 0
        for e in r.events:
            if e.kind != "call" or e.callee.op == "func" or not e.args:
                continue
            hits = [s for s in subterms(e.args[0]) if s.op == "call" and s.a[0] is conv]
            if not hits or e.name in ("count", "split", "replace"):
                continue
            n += 1
            for lits, v in cases(e.args[0]):
                whole = v.op == "call" and v.a[0] is conv
                if any(s.op == "call" and s.a[0] is conv for s in subterms(v)):
                    ctx.put(True if whole else None, R, f"{fq}: inputs and output are renamed together", e.loc, show(v, 4))
        if not n:
            ctx.unk(R, f"{fq}: renamed equation", ctx.p.fn(fq).loc, "not found")
    # an implicit output keeps the order of the original symbols
    r = ctx.run("contract._einsum", opaque=OP | {"parser.convert_to_valid_einsum_chars", "parser.has_valid_einsum_chars_only", "parser.find_output_str", "backends.dispatch.get_func",
                                                  "contract._filter_einsum_defaults"})
    for e in r.events:
        if e.kind == "call" and e.callee is conv:
            arg = e.args[0] if e.args else NONE
            for lits, v in cases(arg):
                arrow = None
                for c, pos in lits:
                    if c.op == "cmp" and c.a[0] == "in" and is_const(c.a[1], "->"):
                        arrow = pos
                if arrow is False:
                    full = contains(v, lambda u: is_call(u, "parser.find_output_str"))
                    ctx.put(True if full else None, R, "an implicit output is made explicit before renaming", e.loc, "the order of the result follows the new symbols: " + show(v, 3))
            if not any(c.op == "cmp" and c.a[0] == "in" and is_const(c.a[1], "->") for lits, v in cases(arg) for c, pos in lits):
                ctx.put(True if contains(arg, lambda u: is_call(u, "parser.find_output_str")) else False, R, "an implicit output is made explicit before renaming", e.loc,
                        "the order of the result follows the new symbols")


def check(ctx):
    ctx.rule("number to symbol", r_symbol)
    ctx.rule("renaming of equations", r_rename)
    ctx.rule("interleaved input", r_interleaved)
    ctx.rule("new symbols", r_unused)
    ctx.rule("symbols for ellipses", r_ellipsis)
    ctx.rule("use of a renamed equation", r_users)
