"""C03: however a contraction is written, it is the same contraction."""
import ast

from sa.engine import is_call
from sa.kit import Undecided, numeval, numleaf, pick, show, strip, truth_of
from sa.terms import NONE, TRUE, const, contains, cval, is_const, mk, subterms
from .common import Fails, gassign, pointeval

DESC = ("Case analysis of the value terms that turn a request into (inputs, output, operands, sizes): presence of an output list decided per way of calling, the update of the table of sizes evaluated for every order in which a size and a "
        "broadcast 1 can arrive, and the parser's documented functions evaluated as terms at points that separate them from their neighbours.")

PARSER = ("parser.parse_einsum_input", "parser.get_shape", "helpers.compute_size_by_dict", "paths.get_path_fn", "blas.can_blas", "helpers.find_contraction", "contract._choose_memory_arg", "helpers.flop_count")


def consts(ctx):
    """module constants of the parser by their term"""
    def val(t):
        if t.op == "gvar":
            e = gassign(ctx, t)
            try:
                v = ast.literal_eval(e) if e is not None else None
            except (ValueError, SyntaxError):
                return None
            return tuple(v) if isinstance(v, list) else v
        if t.op == "ext" and t.a[0] == "string.ascii_letters":
            return "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
        if t.op == "ext" and t.a[0] == "string.ascii_lowercase":
            return "abcdefghijklmnopqrstuvwxyz"
        if t.op == "ext" and t.a[0] == "string.ascii_uppercase":
            return "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
        return None
    return val


# public function: [(arguments, documented result)]
L52 = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
FUNCS = {
    "parser.get_symbol": [((i,), L52[i]) for i in (0, 1, 2, 24, 25, 26, 27, 50, 51)] + [((i,), chr(i + 140)) for i in (52, 53, 100, 200, 20000, 55000)] + [((i,), chr(i + 2048)) for i in (55296, 55297, 60000)],
    "parser.is_valid_einsum_char": [((c,), True) for c in "azAZmM,->."] + [((c,), False) for c in "0 _Ǵöé[京À"],
    "parser.has_valid_einsum_chars_only": [((s,), True) for s in ("abAZ", "ab,bc->ac", "a...,...b", "")] + [((s,), False) for s in ("Över", "ab,bÀ->aÀ", "abö")],
    "parser.find_output_str": [(("ab,bc",), "ac"), (("a,b",), "ab"), (("a,a,b,b",), ""), (("ba,cd",), "abcd"), (("bc,ab,bd",), "acd"), (("aab",), "b"), (("",), ""), (("aB,Bc",), "ac"), (("b,A",), "Ab"), (("a,B",), "Ba"), (("zb,Za",), "Zabz"), (("ab,ab,ab",), "")],
    "parser.find_output_shape": [((("ab", "bc"), ((2, 3), (3, 4)), "ac"), (2, 4)), ((("a", "a"), ((4,), (1,)), "a"), (4,)), ((("a", "a"), ((1,), (4,)), "a"), (4,)), ((("ab", "bc"), ((2, 3), (3, 4)), "ca"), (4, 2)), ((("ab", "ab", "b"), ((1, 5), (3, 1), (1,)), "ba"), (5, 3)),
                                 ((("ab", "b"), ((2, 3), (3,)), ""), ()), ((("abc",), ((2, 3, 4),), "cab"), (4, 2, 3)), ((("ab", "b"), ((2, 0), (1,)), "ba"), (0, 2)), ((("b", "ab"), ((1,), (2, 0)), "ab"), (2, 0)), ((("a", "a"), ((1,), (1,)), "a"), (1,))],
    "parser.convert_to_valid_einsum_chars": [],
}


def r_funcs(ctx):
    R = "documented functions"
    base = consts(ctx)
    for fq, pts in FUNCS.items():
        if not pts:
            continue
        r = ctx.run(fq, public=True)
        t = r.eng.freeze(r.ret, r.state)
        ps = list(r.params.values())
        loc = ctx.p.fn(fq).loc
        short = fq.split(".")[-1]
        for args, want in pts:
            env = dict(zip(ps, args))

            def val(z):
                v = env.get(z)
                return base(z) if v is None else v
            con = f"{short}({', '.join(repr(a) for a in args)})"
            try:
                got = pointeval(t, val, None, r)
            except Fails as x:
                ctx.bad(R, con, loc, f"fails: {x}")
                continue
            except Undecided as x:
                ctx.unk(R, con, loc, str(x)[:120])
                continue
            ctx.put(got == want, R, con, loc, f"{got!r}, documented {want!r}")


def r_objects(ctx):
    """operands that have a shape are taken as they are, others are made arrays"""
    R = "operands"
    fq = "parser.possibly_convert_to_numpy"
    if fq not in ctx.p.fns:
        ctx.unk(R, fq, "", "not in the source")
        return
    r = ctx.run(fq, public=True)
    t = r.eng.freeze(r.ret, r.state)
    x = list(r.params.values())[0]
    loc = ctx.p.fn(fq).loc
    for has in (True, False):
        nm = f"an operand {'with' if has else 'without'} a shape"
        try:
            v = pick(t, lambda c, env: has if c.op == "hasattr" and c.a[0] is x and c.a[1] == "shape" else None)
        except Undecided as u:
            ctx.unk(R, nm, loc, str(u))
            continue
        arr = is_call(v, "numpy.asanyarray", "numpy.asarray", "numpy.array") and v.a[1] and v.a[1][0] is x
        ctx.put((True if v is x else False if arr or v is NONE else None) if has else (True if arr else False if v is x or v is NONE else None), R, nm, loc, "becomes " + show(v, 4))


EQS = {"ab,bc->ac": ("ab,bc", "ac"), "ab, bc -> ac": ("ab,bc", "ac"), " a b , b c": ("ab,bc", "ac"), "ab,bc": ("ab,bc", "ac"), "ba,cd": ("ba,cd", "abcd"), "ab,ab->": ("ab,ab", ""), "ab,ab": ("ab,ab", ""), "ab,bc->ca": ("ab,bc", "ca"), "aab,b->a": ("aab,b", "a"), "a,b->ba": ("a,b", "ba"),
       ",->": (",", ""), ",": (",", ""), "ab,": ("ab,", "ab"), "bA,Ac->cb": ("bA,Ac", "cb"), "a\u00c0,\u00c0b": ("a\u00c0,\u00c0b", "ab")}


def r_equation(ctx):
    """an equation without ellipsis means what it says"""
    R = "equation"
    fq = "parser.parse_einsum_input"
    r = ctx.run(fq, public=True, opaque={"parser.get_shape", "parser.convert_interleaved_input", "parser.gen_unused_symbols"})
    t = r.eng.freeze(r.ret, r.state)
    loc = ctx.p.fn(fq).loc
    ops, sh = (list(r.params.values()) + [None])[:2]
    for eq, (ins, out) in EQS.items():
        for shapes in (False, True):
            vals = (eq, ("operand", 1), ("operand", 2))

            def val(z):
                if z is ops:
                    return vals
                if z is sh:
                    return shapes
                return None

            def leaf(c, env):
                if c.op == "isinstance" and c.a[0].op == "idx" and c.a[0].a[0] is ops and is_const(c.a[0].a[1]) and cval(c.a[0].a[1]) == 0:
                    return "str" in str(c.a[1])
                if c is sh or c.op == "truth" and c.a[0] is sh:
                    return shapes
                return None
            con = f"{eq!r} for two {'shapes' if shapes else 'arrays'}"
            try:
                got = pointeval(t, val, leaf, r)
            except Fails as x:
                ctx.bad(R, con, loc, f"fails: {x}")
                continue
            except Undecided as x:
                ctx.unk(R, con, loc, str(x)[:120])
                continue
            ctx.put(got == (ins, out, vals[1:]), R, con, loc, f"{got!r}")


def r_interleaved(ctx):
    R = "interleaved operands"
    fq = "parser.convert_interleaved_input"
    r = ctx.run(fq, public=True, opaque={"parser.convert_subscripts", "parser.get_symbol"})
    t = r.eng.freeze(r.ret, r.state)
    loc = ctx.p.fn(fq).loc
    ops = next(iter(r.params.values()))
    if t.op != "tup" or len(t.a) != 2:
        raise Undecided("result " + show(t, 3))
    s = t.a[0]

    def rest(z):
        """what is left when the pairs have been taken off"""
        return z.op == "out" and z.a[2].op == "popped"

    def last(z):
        if z.op == "phi":
            return any(last(x) for x in z.a[1:])
        return z.op == "idx" and (rest(z.a[0]) or strip(z.a[0], "builtins.list", "builtins.tuple") is ops) and z.a[1].op == "const" and cval(z.a[1]) in (-1, 0) \
            or is_call(z, "builtins.next") or z.op == "idx" and z.a[0].op == "popped"
    for nm, n, has, empty in (("without output list", 4, False, False), ("with an empty output list", 5, True, True), ("with an output list", 5, True, False), ("one operand with an empty output list", 3, True, True)):
        def num(z):
            if is_call(z, "builtins.len") and z.a[1]:
                x = z.a[1][0]
                if rest(x):
                    return 1 if has else 0
                if strip(x, "builtins.list", "builtins.tuple") is ops:
                    return n
                if last(x):
                    return 0 if empty else 2
            return None
        nl = numleaf(num)

        def leaf(c, env):
            if c.op == "truth":
                c = c.a[0]
            if rest(c):
                return has
            if last(c):
                return has and not empty
            if c.op == "cmp" and c.a[0] == "is" and NONE in c.a[1:]:
                x = c.a[1] if c.a[2] is NONE else c.a[2]
                if last(x):
                    return not has
            if c.op == "cmp" and c.a[0] == "eq":
                for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
                    if last(x) and y.op in ("tup", "lst") and not y.a:
                        return has and empty
            return nl(c, env)
        try:
            got = arrow(s, leaf)
        except Undecided as x:
            ctx.unk(R, nm, loc, str(x)[:120])
            continue
        ctx.put(got == has, R, nm, loc, ("the output list is ignored: the output is found by the rule for a missing one" if has else "an output is made up"))


def arrow(t, leaf):
    """the string has an explicit output in this case"""
    if t.op == "phi":
        return arrow(t.a[1] if truth_of(t.a[0], None, leaf) else t.a[2], leaf)
    if t.op == "esc":
        return arrow(t.a[0], leaf)
    if t.op == "const":
        return "->" in cval(t) if isinstance(cval(t), str) else False
    if t.op == "add":
        return any(arrow(x, leaf) for x in t.a)
    if t.op == "fstr":
        return any(arrow(x, leaf) for x in t.a if not isinstance(x, str)) or any(isinstance(x, str) and "->" in x for x in t.a)
    if t.op == "join":
        if is_const(t.a[0]) and cval(t.a[0]) == "->":
            x = t.a[1]
            if x.op in ("lst", "tup"):
                return len(x.a) > 1
            raise Undecided(show(t, 4))
        return any(arrow(x, leaf) for x in t.a[1:] if x.op in ("const", "add", "phi"))
    if t.op == "call" or t.op == "out" or t.op == "comp":
        return False
    raise Undecided(show(t, 4))


def r_sizes(ctx):
    R = "size of an index"
    fq = "contract.contract_path"
    r = ctx.run(fq, public=True, opaque=set(PARSER))
    evs = [e for e in r.evs("mutate") if e.op in ("setitem", "setdefault", "update") and e.obj.op in ("new", "alloc", "obj") and e.args and e.args[0].op == "elem" and e.args[0].a[0].op == "elem"]
    if not evs:
        raise Undecided("where the table of sizes is filled")
    K = evs[0].args[0]
    evs = [e for e in evs if e.args[0] is K and e.obj is evs[0].obj]
    if any(e.op != "setitem" for e in evs):
        raise Undecided("the table of sizes is filled by " + ", ".join(sorted({e.op for e in evs})))
    term = K.a[0]
    # the dimension that belongs to this occurrence
    dims = set()
    for e in evs:
        for x in subterms(e.args[1]):
            if x.op == "idx" and x.a[0].op == "idx" and (contains(x, lambda y: y.op == "pos") or contains(x, lambda y: y.op == "elem")):
                dims.add(x)
            elif x.op == "elem" and x is not K and x is not term and not contains(K, x) and contains(x, lambda y: is_call(y, "parser.get_shape") or y.op == "idx" and is_call(y.a[0], "parser.parse_einsum_input")):
                dims.add(x)
    dims = [d for d in dims if not any(d is not o and contains(o, d) for o in dims)]
    if len(dims) != 1:
        raise Undecided("the dimension of an occurrence")
    D = dims[0]
    loc = evs[0].loc
    if D.op == "idx" and D.a[0].op == "idx":
        ctx.put(True if D.a[1] is mk("pos", term) and D.a[0].a[1] is mk("pos", term.a[0]) else False if D.a[1] is mk("pos", term.a[0]) or D.a[0].a[1] is mk("pos", term) else None, R, "every occurrence of an index is paired with its own dimension", loc, show(D, 6))
    for nm, cur, dim, want in (("first met", None, 5, 5), ("first met with size 1", None, 1, 1), ("met again with the same size", 5, 5, 5), ("of size 1, met again with a larger one", 1, 5, 5), ("met again with size 1", 5, 1, 5), ("of size 1 twice", 1, 1, 1)):
        def entry(z):
            return z.op == "idx" and z.a[1] is K

        def val(z):
            if z is D:
                return dim
            if is_call(z, "builtins.int") and z.a[1] and z.a[1][0] is D:
                return dim
            if entry(z):
                if cur is None:
                    raise Undecided("entry read before it exists")
                return cur
            if z.op == "get" and z.a[1] is K:
                return cur if cur is not None else cval(z.a[2]) if is_const(z.a[2]) and cval(z.a[2]) is not None else None
            return None

        def leaf(c, env):
            if c.op == "cmp" and c.a[0] == "in" and c.a[1] is K:
                return cur is not None
            if c.op == "cmp" and c.a[0] == "is" and NONE in c.a[1:]:
                x = c.a[1] if c.a[2] is NONE else c.a[2]
                if x.op == "get" and x.a[1] is K and x.a[2] is NONE:
                    return cur is None
            return None
        new = cur
        try:
            for e in evs:
                on = True
                for f in e.facts:
                    if not (contains(f, D) or contains(f, lambda z: z.op == "cmp" and z.a[0] == "in" and z.a[1] is K or entry(z) or z.op == "get" and z.a[1] is K)):
                        continue
                    if contains(f, lambda z: is_call(z, "builtins.len")) and not contains(f, K):
                        continue
                    if not pointeval(f, val, leaf):
                        on = False
                        break
                if on:
                    new = pointeval(e.args[1], val, leaf)
        except (Undecided, Fails) as x:
            ctx.unk(R, f"an index {nm}", loc, str(x)[:120])
            continue
        ctx.put(new == want, R, f"an index {nm}", loc, f"recorded size {new} (was {cur}, operand has {dim})")


def r_shapes(ctx):
    """get_shape: the shape attribute if there is one, () for scalars, the nesting of sequences, ValueError for anything else"""
    R = "shapes of operands"
    fq = "parser.get_shape"
    r = ctx.run(fq)
    fn = ctx.p.fn(fq)
    x = r.params[fn.params()[0]]

    def leafat(attr, base, seq):
        def leaf(c, env):
            if is_call(c, "builtins.hasattr") and c.a[1][0] is x or c.op == "hasattr" and c.a[0] is x:
                return attr
            if c.op == "isinstance" and c.a[0] is x:
                k = show(c.a[1], 6)
                if "_BaseTypes" in k or all(w in k for w in ("int", "float", "str")):
                    return base
                if "Sequence" in k:
                    return seq
            return None
        return leaf
    ends = [e for e in r.events if e.kind in ("return", "raise") and e.fq == fq]
    for nm, kind, pts in (("an array", "shape", [(True, False, False), (True, False, True)]), ("a scalar", "empty", [(False, True, False), (False, True, True)]),
                          ("a nested sequence", "nest", [(False, False, True)]), ("anything else", "error", [(False, False, False)])):
        for pt in pts:
            hit = None
            try:
                for e in ends:
                    if all(truth_of(f, None, leafat(*pt)) for f in e.facts):
                        hit = e
                        break
            except Undecided as u:
                ctx.unk(R, nm, fn.loc, str(u))
                continue
            if hit is None:
                ctx.unk(R, nm, fn.loc, "no end of the function is reached")
                continue
            got = "error" if hit.kind == "raise" else "shape" if hit.value is mk("attr", x, "shape") else "empty" if hit.value.op == "tup" and not hit.value.a else "nest" if contains(hit.value, lambda u: u.op in ("append", "out", "mu")) else None
            if got == "error" and not contains(hit.exc, lambda u: u.op == "ext" and u.a[0].endswith("ValueError")):
                got = "another error"
            if kind == "empty" and got == "nest":
                got = None
            ctx.put(None if got is None else got == kind, R, nm, hit.loc, f"gives {got}: {show(hit.value, 3) if hit.kind == 'return' else show(hit.exc, 3)}")
    for e in r.evs("getitem"):
        if e.fq != fq or not e.loops or e.key.op != "const" or e.obj not in r.eng.muinfo:
            continue
        cur = e.obj

        def leaf(c, env):
            if c is cur or c.op == "truth" and c.a[0] is cur:
                return False
            if is_call(c, "builtins.len") and c.a[1][0] is cur:
                return False
            if c.op == "isinstance" and c.a[0] in (cur, x):
                return "Sequence" in show(c.a[1], 6) and "_BaseTypes" not in show(c.a[1], 6)
            if is_call(c, "builtins.hasattr") or c.op == "hasattr":
                return False
            return numleaf(lambda u: 0 if is_call(u, "builtins.len") and u.a[1][0] is cur else None)(c, env)
        try:
            ctx.put(not all(truth_of(f, None, leaf) for f in e.facts), R, "an empty sequence", e.loc, "its first entry is taken, which raises IndexError")
        except Undecided as u:
            ctx.unk(R, "an empty sequence", e.loc, str(u))
    for e in r.evs("mutate"):
        if e.fq == fq and e.op == "append" and e.loops:
            v = e.args[0]
            ctx.put(True if is_call(v, "builtins.len") and v.a[1][0] in r.eng.muinfo else False if v.op == "const" or is_call(v, "builtins.len") else None, R, "the nesting of a sequence", e.loc, show(v, 3))


def check(ctx):
    ctx.rule("documented functions", r_funcs)
    ctx.rule("equation", r_equation)
    ctx.rule("interleaved operands", r_interleaved)
    ctx.rule("size of an index", r_sizes)
    ctx.rule("operands", r_objects)
    ctx.rule("shapes of operands", r_shapes)
