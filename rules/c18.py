"""C18: no third-party library is needed, on any declared Python."""
import ast
import io
import os
import re
import sys
import tokenize

from sa.src import AnalysisBroken, PKG
from sa.terms import contains, subterms

DESC = ("Import closure of the package with the handler around every third-party import; dominance of function-level imports by the condition that needs the library; uses of names that only exist when a guarded "
        "import succeeded; grammar and standard-library availability of every construct at the lowest Python that pyproject.toml declares.")

STD = set(sys.stdlib_module_names) | {"distutils", "imp", "asyncore", "asynchat", "smtpd"}
IMPERR = {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"}
GONE = {"distutils": (3, 12), "imp": (3, 12), "asyncore": (3, 12), "asynchat": (3, 12), "smtpd": (3, 12), "cgi": (3, 13), "cgitb": (3, 13), "pipes": (3, 13), "crypt": (3, 13), "imghdr": (3, 13),
        "sndhdr": (3, 13), "telnetlib": (3, 13), "nntplib": (3, 13), "uu": (3, 13), "xdrlib": (3, 13), "audioop": (3, 13), "lib2to3": (3, 13), "aifc": (3, 13), "chunk": (3, 13), "msilib": (3, 13), "nis": (3, 13),
        "ossaudiodev": (3, 13), "spwd": (3, 13), "sunau": (3, 13), "mailcap": (3, 13)}


def since(text):
    out = {}
    for line in text.strip().splitlines():
        v, names = line.split(":", 1)
        for n in names.split():
            out[n] = tuple(int(x) for x in v.strip().split("."))
    return out


# what appeared in which version (names a module-level lookup resolves to)
NEW = since("""
3.9: zoneinfo graphlib functools.cache math.lcm math.nextafter math.ulp random.randbytes typing.Annotated asyncio.to_thread ast.unparse os.waitstatus_to_exitcode random.Random.randbytes
3.10: itertools.pairwise operator.length_hint_ types.UnionType types.NoneType types.EllipsisType types.NotImplementedType typing.ParamSpec typing.TypeAlias typing.Concatenate typing.TypeGuard typing.is_typeddict contextlib.aclosing builtins.aiter builtins.anext inspect.get_annotations bisect_key statistics.correlation statistics.covariance statistics.linear_regression sys.orig_argv sys.stdlib_module_names threading.gettrace threading.getprofile dataclasses.KW_ONLY builtins.EncodingWarning
3.11: tomllib math.cbrt math.exp2 operator.call typing.Self typing.Never typing.LiteralString typing.Unpack typing.TypeVarTuple typing.Required typing.NotRequired typing.assert_never typing.assert_type typing.reveal_type typing.dataclass_transform typing.clear_overloads typing.get_overloads contextlib.chdir builtins.ExceptionGroup builtins.BaseExceptionGroup enum.StrEnum enum.ReprEnum enum.verify enum.member enum.nonmember enum.global_enum datetime.UTC hashlib.file_digest sys.exception asyncio.TaskGroup asyncio.timeout asyncio.Runner re.NOFLAG inspect.getmembers_static
3.12: itertools.batched math.sumprod random.binomialvariate typing.override typing.TypeAliasType collections.abc.Buffer inspect.markcoroutinefunction inspect.BufferFlags types.get_original_bases calendar.Month calendar.Day sys.monitoring
3.13: math.fma copy.replace typing.TypeIs typing.ReadOnly typing.NoDefault typing.get_protocol_members typing.is_protocol warnings.deprecated builtins.PythonFinalizationError queue.ShutDown os.process_cpu_count
3.14: functools.Placeholder operator.is_none operator.is_not_none heapq.heappush_max heapq.heappop_max heapq.heapify_max heapq.heappushpop_max heapq.heapreplace_max annotationlib compression concurrent.interpreters concurrent.futures.InterpreterPoolExecutor string.templatelib
""")
# what disappeared
OLD = since("""
3.10: collections.Mapping collections.MutableMapping collections.Sequence collections.MutableSequence collections.Iterable collections.Iterator collections.Callable collections.Hashable collections.Sized collections.Container collections.Set collections.MutableSet collections.Collection collections.Generator formatter parser symbol
3.9: fractions.gcd
3.8: time.clock
3.11: inspect.getargspec asyncio.coroutine binhex
3.12: typing.io typing.re
3.13: locale.resetlocale typing.ByteString_
""")
# methods no other type of this code base has
METHODS = {"removeprefix": (3, 9), "removesuffix": (3, 9), "bit_count": (3, 10)}
# keyword options
KWS = {("builtins.zip", "strict"): (3, 10), ("builtins.map", "strict"): (3, 14), ("dataclasses.dataclass", "slots"): (3, 10), ("dataclasses.dataclass", "kw_only"): (3, 10), ("bisect.bisect", "key"): (3, 10),
       ("bisect.bisect_left", "key"): (3, 10), ("bisect.bisect_right", "key"): (3, 10), ("bisect.insort", "key"): (3, 10), ("bisect.insort_left", "key"): (3, 10), ("bisect.insort_right", "key"): (3, 10),
       ("concurrent.futures.ProcessPoolExecutor", "max_tasks_per_child"): (3, 11), ("random.sample", "counts"): (3, 9), ("dataclasses.dataclass", "weakref_slot"): (3, 11), ("math.nextafter", "steps"): (3, 12),
       ("itertools.batched", "strict"): (3, 13)}
METHOD_KWS = {("shutdown", "cancel_futures"): (3, 9)}
# more arguments than an old version takes
ARGS = {"math.gcd": (2, (3, 9))}
GENERIC = {"builtins." + n for n in "list dict tuple set frozenset type".split()} | {"collections." + n for n in "deque defaultdict OrderedDict Counter ChainMap".split()} | \
    {"collections.abc." + n for n in "Iterable Iterator Sequence Mapping MutableMapping MutableSequence Callable Collection Set MutableSet Generator Hashable Sized Container Reversible KeysView ValuesView ItemsView "
     "Awaitable Coroutine AsyncIterable AsyncIterator AsyncGenerator".split()} | {"re.Pattern", "re.Match", "contextlib.AbstractContextManager", "queue.Queue"}
TYPES = {"builtins." + n for n in "list dict tuple set frozenset type int str float bool bytes complex object".split()}


def parents(tree):
    up = {}
    for n in ast.walk(tree):
        for f, v in ast.iter_fields(n):
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST):
                    up[c] = (n, f)
    return up


def chain(up, n):
    """[(ancestor, field through which n lies in it)] from the inside out"""
    out = []
    while n in up:
        out.append(up[n])
        n = up[n][0]
    return out


FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def tail(e):
    return e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None


def catches(h, names):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(tail(t) in names for t in ts)


def leaves(body):
    """the statements end by raising, whatever happens: True; never: False; None"""
    hit = any(isinstance(n, ast.Raise) for s in body for n in ast.walk(s))
    if not hit:
        return False
    return True if any(isinstance(s, ast.Raise) for s in body) else None


def typing_only(a):
    return isinstance(a, ast.If) and any(tail(x) == "TYPE_CHECKING" for x in ast.walk(a.test) if isinstance(x, (ast.Name, ast.Attribute)))


class Look:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.up = {}
        self.low, self.deps = project(self.p)

    def upm(self, m):
        if m.name not in self.up:
            self.up[m.name] = parents(m.tree)
        return self.up[m.name]

    def fails(self, m, n):
        """what a failing import of n does: ("typing", None) never run; ("caught", try) goes on; ("reraised", try); ("maybe", ...) unknown condition; ("uncaught", None).  Only up to the enclosing function."""
        cond = None
        for a, f in chain(self.upm(m), n):
            if isinstance(a, FN):
                break
            if typing_only(a) and f == "body":
                return "typing", None
            if isinstance(a, (ast.Try, getattr(ast, "TryStar", ast.Try))) and f == "body":
                hs = [h for h in a.handlers if catches(h, IMPERR)]
                if hs:
                    v = leaves(hs[0].body)
                    return {True: "reraised", False: "caught", None: "maybe"}[v], a
            if isinstance(a, ast.With) and f == "body":
                for i in a.items:
                    c = i.context_expr
                    if isinstance(c, ast.Call) and tail(c.func) == "suppress" and any(tail(x) in IMPERR for x in c.args):
                        return "caught", a
                    if not isinstance(c, ast.Call) or tail(c.func) not in ("warnings", "catch_warnings"):
                        cond = cond or a
            if isinstance(a, (ast.If, ast.IfExp)) and f in ("body", "orelse"):
                cond = cond or a
        return ("maybe", cond) if cond is not None else ("uncaught", None)

    def infn(self, m, n):
        return next((a for a, _ in chain(self.upm(m), n) if isinstance(a, FN)), None)

    def imports(self, m):
        """[(node, top-level name, dotted names it may load inside the package)]"""
        pk = m.name if m.rel.endswith("__init__.py") else m.name.rsplit(".", 1)[0]
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    yield n, a.name.split(".")[0], [a.name]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = pk.split(".")
                    parts = parts[:len(parts) - (n.level - 1)]
                    base = ".".join(parts + ([base] if base else []))
                yield n, base.split(".")[0], [base] + [base + "." + a.name for a in n.names]


def project(p):
    """(lowest Python, declared dependencies) from pyproject.toml"""
    import tomllib
    repo = os.path.dirname(os.path.dirname(next(m.path for m in p.mods.values() if m.short == "")))
    try:
        with open(os.path.join(repo, "pyproject.toml"), "rb") as f:
            d = tomllib.load(f)["project"]
    except (OSError, KeyError, tomllib.TOMLDecodeError):
        raise AnalysisBroken("pyproject.toml: [project]")
    m = re.search(r">=?\s*(\d+)\.(\d+)", d.get("requires-python", ""))
    low = (int(m[1]), int(m[2])) if m else None
    deps = {re.split(r"[\s<>=!~;\[]", x)[0].lower().replace("-", "_") for x in d.get("dependencies", [])}
    return low, deps


def check(ctx):
    lk = Look(ctx)
    for name, f in (("imports", imports), ("names", names), ("functions", functions), ("own library", own), ("grammar", grammar), ("library", library)):
        ctx.rule(name, lambda ctx, f=f: f(ctx, lk))


def closure(lk):
    """modules that importing the package runs"""
    p = lk.p
    if PKG not in p.mods:
        raise AnalysisBroken("opt_einsum/__init__.py")
    seen, todo = [], [PKG]
    while todo:
        x = todo.pop()
        if x in seen or x not in p.mods:
            continue
        seen.append(x)
        m = p.mods[x]
        for n, top, dots in lk.imports(m):
            if top == PKG and lk.infn(m, n) is None and lk.fails(m, n)[0] != "typing":
                for d in dots:
                    parts = d.split(".")
                    todo += [".".join(parts[:i + 1]) for i in range(len(parts))]
    return sorted(seen)


def third(lk, top):
    return top not in STD and top != PKG and top != "__future__" and top.lower() not in lk.deps


def imports(ctx, lk):
    for x in closure(lk):
        m = lk.p.mods[x]
        rule = "importing the package needs nothing but the standard library"
        bad = False
        for n, top, dots in lk.imports(m):
            if lk.infn(m, n) is not None or not third(lk, top):
                continue
            bad = True
            k, a = lk.fails(m, n)
            con, wh = f"{m.rel}: import of {dots[0]}", f"{m.rel}:{n.lineno}"
            if k == "typing":
                ctx.ok(rule, con, wh, "for type checkers only")
            elif k == "caught" and top == "numpy":
                ctx.ok(rule, con, wh, "a missing library is caught and the import of the package goes on")
            elif k == "caught":
                ctx.bad("importing the package loads no backend's library", con, wh, f"`import opt_einsum` loads {top} wherever it is installed, whether or not it is used")
            elif k == "maybe":
                ctx.unk(rule, con, wh, "under a condition that this rule cannot read")
            else:
                ctx.bad(rule, con, wh, f"`import opt_einsum` fails where {top} is not installed" + ("" if k == "uncaught" else ": the handler raises again"))
        if not bad:
            ctx.ok(rule, m.rel, m.rel, "only the standard library and the package itself")


def bound(stmts):
    """names the statements bind (not inside nested functions)"""
    out = set()
    todo = list(stmts)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in n.names}
        todo += list(ast.iter_child_nodes(n))
    return out


def shallow(s):
    """nodes of a statement that run with it (not the bodies of functions it defines)"""
    todo = [s]
    while todo:
        n = todo.pop()
        if isinstance(n, FN):
            continue
        yield n
        todo += list(ast.iter_child_nodes(n))


def sure(up, n, stop):
    """the expression runs whenever `stop` (a function or module) runs: no condition, loop, handler or earlier exit before it"""
    cur = n
    for a, f in chain(up, n):
        if isinstance(a, FN) and f in ("args", "decorator_list", "returns"):
            pass
        elif isinstance(a, (ast.If, ast.IfExp, ast.While)) and f != "test":
            return False
        elif isinstance(a, ast.BoolOp) and a.values[0] is not cur:
            return False
        elif isinstance(a, (ast.For, ast.AsyncFor)) and f != "iter":
            return False
        elif isinstance(a, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return False
        elif isinstance(a, (ast.Try, ast.ExceptHandler, ast.With)) and f in ("body", "orelse", "handlers"):
            return False
        elif isinstance(a, ast.comprehension):
            return False
        elif isinstance(a, FN) and a is not stop:
            return False
        elif hasattr(ast, "Match") and isinstance(a, (ast.Match, ast.match_case)):
            return False
        if isinstance(getattr(a, f, None), list) and cur in getattr(a, f) and isinstance(cur, ast.stmt):
            before = getattr(a, f)[:getattr(a, f).index(cur)]
            if any(isinstance(x, (ast.Return, ast.Raise, ast.Continue, ast.Break)) for s in before for x in shallow(s)):
                return False
        if a is stop:
            return True
        cur = a
    return isinstance(stop, ast.Module)


def names(ctx, lk):
    """names that exist only where the guarded import succeeded"""
    rule = "a name that needs a library is used only where the library is there"
    some = False
    for x in closure(lk):
        m = lk.p.mods[x]
        up = lk.upm(m)
        for n, top, dots in lk.imports(m):
            if lk.infn(m, n) is not None or not third(lk, top):
                continue
            k, tr = lk.fails(m, n)
            if k != "caught" or not isinstance(tr, ast.Try):
                continue
            some = True
            h = next(h for h in tr.handlers if catches(h, IMPERR))
            only = bound(tr.body + tr.orelse) - bound(h.body)
            # bound elsewhere in the module as well: a default
            inside = {id(y) for s in tr.body + tr.orelse for y in ast.walk(s)}
            elsewhere = bound([s for s in m.tree.body if s is not tr])
            only -= elsewhere
            roots = must(lk)
            bad = unk = 0
            for y in ast.walk(m.tree):
                if not (isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id in only) or id(y) in inside:
                    continue
                fs = [a for a, _ in chain(up, y) if isinstance(a, FN)]
                con, wh = f"{m.rel}: {y.id}", f"{m.rel}:{y.lineno}"
                if fs and any(y.id in bound(f.body if isinstance(f.body, list) else [f.body]) or y.id in {q.arg for q in f.args.args} for f in fs):
                    continue
                if not fs:
                    if sure(up, y, m.tree):
                        bad += 1
                        ctx.bad(rule, con, wh, f"the import of the package fails with NameError where {top} is not installed")
                    else:
                        unk += 1
                        ctx.unk(rule, con, wh, "conditional use at module level")
                    continue
                f = lk.p and next((g for g in lk.p.fns.values() if g.node is fs[-1]), None)
                if len(fs) == 1 and f is not None and f.fq in roots and sure(up, y, fs[0]):
                    bad += 1
                    ctx.bad(rule, con, wh, f"{f.fq} fails with NameError where {top} is not installed (reached from {roots[f.fq]})")
                else:
                    unk += 1
                    ctx.unk(rule, con, wh, "used in a function that may only run where the library is there")
            if not bad and not unk:
                ctx.ok(rule, f"{m.rel}: {', '.join(sorted(only)) or top}", f"{m.rel}:{n.lineno}", "used inside the guarded block only")
    if not some:
        ctx.ok(rule, "import closure", "", "no guarded import at module level")


def entries(lk):
    """what has to work whatever the operands are: the public functions and methods of the core modules"""
    clo = set(closure(lk))
    for f in lk.p.fns.values():
        if f.mod.name in clo and core(f.mod) and f.outer is None and not isinstance(f.node, ast.Lambda):
            parts = f.fq[len(f.mod.short) + 1:].split(".")
            if all(not x.startswith("_") or x.startswith("__") for x in parts) and "<" not in f.fq:
                yield f


def must(lk):
    """{function: entry from which it is called on every run}"""
    if hasattr(lk, "_must"):
        return lk._must
    out, todo = {}, []
    for f in entries(lk):
        out[f.fq] = f.fq
        todo.append(f)
    while todo:
        f = todo.pop()
        if isinstance(f.node, ast.Lambda):
            continue
        up = lk.upm(f.mod)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and sure(up, n, f.node):
                t = lk.p.lookup_expr(f.mod, n.func)
                if t is not None and t.op == "func" and t.a[0] not in out and t.a[0] in lk.p.fns:
                    g = lk.p.fns[t.a[0]]
                    if not g.is_gen:
                        out[g.fq] = out[f.fq]
                        todo.append(g)
    lk._must = out
    return out


def core(m):
    return not m.short.startswith("backends.") or m.short == "backends.dispatch"


def lacks_shape(f):
    """the fact says that an operand is no array"""
    s = repr(f)
    return "shape" in s and f.op == "not" and ("hasattr" in s or "getattr" in s) or f.op == "is" and "getattr" in s and "shape" in s and "None" in s


def functions(ctx, lk):
    rule = "planning needs no third-party library"
    clo = set(closure(lk))
    some = 0
    for m in lk.p.mods.values():
        if not core(m) or m.name not in clo:
            continue
        for n, top, dots in lk.imports(m):
            fnode = lk.infn(m, n)
            if fnode is None or not third(lk, top):
                continue
            some += 1
            k, tr = lk.fails(m, n)
            con, wh = f"{m.rel}: import of {dots[0]}", f"{m.rel}:{n.lineno}"
            if k == "caught":
                ctx.ok(rule, con, wh, "a missing library is caught")
                continue
            f = next((g for g in lk.p.fns.values() if g.node is fnode), None)
            if f is None:
                ctx.unk(rule, con, wh, "in a function this rule cannot name")
                continue
            v, why = needed(ctx, lk, f, n, 0)
            ctx.put(v, rule, con, wh, why if v is not False else f"{why}: {f.fq} fails where {top} is not installed, even for operands that need no conversion")
    if not some:
        ctx.ok(rule, "functions of the core modules", "", "no third-party import")


def needed(ctx, lk, f, n, depth):
    """the statement runs only for an operand without shape (or a missing library is caught around it): (verdict, why)"""
    try:
        r = ctx.run(f.fq)
    except AnalysisBroken:
        return None, "the function could not be analysed"
    evs = [e for e in r.evs("import") if e.node is n]
    if not evs:
        return None, "the import is not on an analysed path"
    un = [e for e in evs if not any(lacks_shape(x) for x in e.facts)]
    if not un:
        return True, "only for an operand without `.shape`"
    real = [x for e in un for x in e.facts if not contains(x, lambda y: y.op == "exc")]
    # whoever calls it may supply the condition
    sites = callers(lk, f)
    if sites and depth < 2:
        vs = []
        for g, c in sites:
            k, _ = lk.fails(g.mod, c)
            if k == "caught":
                vs.append((True, "a missing library is caught around the call"))
                continue
            try:
                rg = ctx.run(g.fq)
            except AnalysisBroken:
                vs.append((None, "a caller could not be analysed"))
                continue
            ev = [e for e in rg.evs("import") if e.node is n]
            if ev and all(any(lacks_shape(x) for x in e.facts) for e in ev):
                vs.append((True, "only for an operand without `.shape`"))
            elif ev and any(not [x for x in e.facts if not contains(x, lambda y: y.op == "exc")] for e in ev):
                vs.append((False, f"reached for every input of {g.fq}"))
            else:
                vs.append((None, "under a condition that this rule cannot read"))
        if any(v is False for v, _ in vs):
            return next(x for x in vs if x[0] is False)
        if all(v for v, _ in vs):
            return vs[0]
    if not real and f.fq in must(lk):
        return False, f"runs for every input (reached from {must(lk)[f.fq]})"
    return None, "under a condition that this rule cannot read"


def callers(lk, f):
    out = []
    for g in lk.p.fns.values():
        if isinstance(g.node, ast.Lambda):
            continue
        for c in ast.walk(g.node):
            if isinstance(c, ast.Call) and tail(c.func) == f.name:
                t = lk.p.lookup_expr(g.mod, c.func)
                if t is not None and t.op == "func" and t.a[0] == f.fq:
                    out.append((g, c))
    return out


LIBS = {"jax": {"jax", "jaxlib", "numpy"}, "theano": {"theano", "numpy"}, "tensorflow": {"tensorflow", "numpy"}, "torch": {"torch", "numpy"}, "cupy": {"cupy", "numpy"}, "object_arrays": {"numpy"}}


def own(ctx, lk):
    rule = "a backend needs only its own library"
    for m in lk.p.mods.values():
        if core(m):
            continue
        lib = LIBS.get(m.short.split(".")[-1])
        bad = False
        for n, top, dots in lk.imports(m):
            if not third(lk, top) or lk.infn(m, n) is None:
                continue
            if lib is not None and top not in lib and lk.fails(m, n)[0] in ("uncaught", "reraised"):
                bad = True
                ctx.bad(rule, f"{m.rel}: import of {dots[0]}", f"{m.rel}:{n.lineno}", f"this backend cannot be used where {top} is not installed")
        if not bad:
            ctx.put(True if lib is not None else None, rule, m.rel, m.rel, "" if lib is not None else "which library it stands for is not known")


# ---------------------------------------------------------------------------------------------- versions
def grammar(ctx, lk):
    rule = "the source parses on every declared Python"
    if lk.low is None:
        ctx.unk(rule, "pyproject.toml", "pyproject.toml", "no lowest version declared")
        return
    v = f"Python {lk.low[0]}.{lk.low[1]}"
    for m in lk.p.mods.values():
        try:
            ast.parse(m.src, feature_version=lk.low)
        except SyntaxError as e:
            ctx.bad(rule, m.rel, f"{m.rel}:{e.lineno}", f"{v}: {e.msg}")
            continue
        if lk.low < (3, 12):
            x = fstrings(m.src)
            if x:
                ctx.bad(rule, m.rel, f"{m.rel}:{x[0]}", f"{v}: {x[1]}")
                continue
        ctx.ok(rule, m.rel, m.rel, v)


def fstrings(src):
    """(line, reason) of an f-string that only parses from 3.12 on"""
    if not hasattr(tokenize, "FSTRING_START"):
        return None
    stack = []
    for t in tokenize.generate_tokens(io.StringIO(src).readline):
        if t.type == tokenize.FSTRING_START:
            q = t.string.lstrip("rRfFbBuU")
            if any(q == s or (len(s) == 1 and s in q) for s in stack):
                return t.start[0], "quotes of an f-string are reused inside it"
            stack.append(q)
        elif t.type == tokenize.FSTRING_END:
            stack.pop()
        elif stack and t.type == tokenize.STRING:
            if any(s in t.string for s in stack):
                return t.start[0], "quotes of an f-string are reused inside it"
            if "\\" in t.string:
                return t.start[0], "backslash in the expression of an f-string"
        elif stack and t.type == tokenize.COMMENT:
            return t.start[0], "comment in the expression of an f-string"
    return None


def library(ctx, lk):
    rule = "only what every declared Python has"
    if lk.low is None:
        return
    for m in lk.p.mods.values():
        fut = any(isinstance(n, ast.ImportFrom) and n.module == "__future__" and any(a.name == "annotations" for a in n.names) for n in m.tree.body)
        hits, cnt = [], 0
        for n in ast.walk(m.tree):
            for what, v in uses(lk, m, n, fut):
                cnt += 1
                if what is not None and v[1] > lk.low:
                    hits.append((n, what, v))
        hits = [h for h in hits if not guarded(lk, m, h[0])]
        for n, what, v in hits:
            ctx.bad(rule, f"{m.rel}: {what}", f"{m.rel}:{n.lineno}", f"{v[0]} Python {v[1][0]}.{v[1][1]}; {lk.low[0]}.{lk.low[1]} is declared as supported")
        if not hits:
            ctx.ok(rule, m.rel, m.rel, f"{cnt} uses of the standard library looked up")


def guarded(lk, m, n):
    for a, f in chain(lk.upm(m), n):
        if isinstance(a, (ast.If, ast.IfExp)) and f in ("body", "orelse"):
            if typing_only(a) or any(tail(x) in ("version_info", "hexversion") or isinstance(x, ast.Call) and tail(x.func) in ("hasattr",) for x in ast.walk(a.test)):
                return True
        if isinstance(a, ast.Try) and f == "body" and any(catches(h, IMPERR | {"AttributeError", "TypeError", "NameError"}) for h in a.handlers):
            return True
    return False


def evaluated(lk, m, n, fut):
    """the expression is evaluated when the module or a function of it runs (not a mere annotation)"""
    for a, f in chain(lk.upm(m), n):
        ann = f == "annotation" or f == "returns"
        if ann and (fut or isinstance(a, ast.AnnAssign) and any(isinstance(z, FN) for z, _ in chain(lk.upm(m), a))):
            return False
        if ann:
            return True
    return True


def annotation(lk, m, n):
    return any(f in ("annotation", "returns") for _, f in chain(lk.upm(m), n))


def local(lk, m, n):
    """the name is a local of an enclosing function"""
    for a, _ in chain(lk.upm(m), n):
        if isinstance(a, FN):
            g = a.args
            if n.id in {x.arg for x in g.args + g.posonlyargs + g.kwonlyargs} | {x.arg for x in (g.vararg, g.kwarg) if x}:
                return True
            if not isinstance(a, ast.Lambda):
                b = bound(a.body)
                if n.id in b:
                    return True
    return False


def imported(lk, m, e, base):
    """the same for a name that an enclosing function imports"""
    for a, _ in chain(lk.upm(m), base):
        if isinstance(a, FN) and not isinstance(a, ast.Lambda):
            for s in ast.walk(a):
                if isinstance(s, (ast.Import, ast.ImportFrom)) and not getattr(s, "level", 0):
                    for al in s.names:
                        if (al.asname or al.name) == base.id:
                            d = al.name if isinstance(s, ast.Import) else s.module + "." + al.name
                            return None if d.split(".")[0] == PKG else d + ast.unparse(e)[len(base.id):]
    return None


def ext(lk, m, e):
    """dotted name of something outside the package"""
    base = e
    while isinstance(base, ast.Attribute):
        base = base.value
    if not isinstance(base, ast.Name):
        return None
    if local(lk, m, base):
        return imported(lk, m, e, base)
    t = lk.p.lookup_expr(m, e)
    if t is not None and t.op == "ext":
        return t.a[0]
    if t is None and isinstance(e, ast.Name) and e.id not in m.ns:
        return "builtins." + e.id
    return None


def uses(lk, m, n, fut):
    """[(construct, (text, version))] of a node; (None, _) for one that was looked up without result"""
    if isinstance(n, (ast.Import, ast.ImportFrom)):
        if isinstance(n, ast.ImportFrom) and n.level:
            return
        for a in n.names:
            if isinstance(n, ast.Import):
                ds = [a.name]
            else:
                ds = [n.module, n.module + "." + a.name]
            for d in ds:
                if d in NEW:
                    yield d, ("new in", NEW[d])
                elif d in OLD:
                    yield d, ("removed in", OLD[d])
                elif d in GONE:
                    yield d, ("removed in", GONE[d])
                else:
                    yield None, None
    elif isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
        d = ext(lk, m, n)
        if d is not None and not annotation_only(lk, m, n, fut):
            if d in NEW and not isinstance(n, ast.Name):
                yield d, ("new in", NEW[d])
            elif d in NEW and d.startswith("builtins."):
                yield d, ("new in", NEW[d])
            elif d in OLD and not isinstance(n, ast.Name):
                yield d, ("removed in", OLD[d])
            else:
                yield None, None
    elif isinstance(n, ast.Call):
        d = ext(lk, m, n.func)
        for k in n.keywords:
            if d is not None and (d, k.arg) in KWS:
                yield f"{d}({k.arg}=)", ("new in", KWS[d, k.arg])
            elif isinstance(n.func, ast.Attribute) and (n.func.attr, k.arg) in METHOD_KWS:
                yield f".{n.func.attr}({k.arg}=)", ("new in", METHOD_KWS[n.func.attr, k.arg])
        if d in ARGS and len(n.args) > ARGS[d][0]:
            yield f"{d} with {len(n.args)} arguments", ("new in", ARGS[d][1])
        if d is None and isinstance(n.func, ast.Attribute) and n.func.attr in METHODS:
            yield "." + n.func.attr, ("new in", METHODS[n.func.attr])
        if d == "builtins.isinstance" and len(n.args) == 2 and isinstance(n.args[1], ast.BinOp) and isinstance(n.args[1].op, ast.BitOr):
            yield "isinstance with X | Y", ("new in", (3, 10))
    elif isinstance(n, ast.Subscript):
        d = ext(lk, m, n.value)
        if d in GENERIC and evaluated(lk, m, n, fut):
            yield f"{d}[...]", ("subscriptable from", (3, 9))
    elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
        if annotation(lk, m, n):
            if evaluated(lk, m, n, fut):
                yield "X | Y in an annotation", ("new in", (3, 10))
        elif any(ext(lk, m, x) in TYPES for x in (n.left, n.right)):
            yield "X | Y of types", ("new in", (3, 10))
        elif all(isinstance(x, (ast.Dict, ast.DictComp)) or isinstance(x, ast.Call) and ext(lk, m, x.func) == "builtins.dict" for x in (n.left, n.right)):
            yield "dict | dict", ("new in", (3, 9))


def annotation_only(lk, m, n, fut):
    return not evaluated(lk, m, n, fut)
