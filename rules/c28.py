"""C28: no path of the package fails by construction."""
import ast
import importlib
import inspect
import string
import sys

from sa import flow
from sa.graph import FN, scope, targets
from sa.graph import own_locals as _own_locals
from sa.src import walk_own

DESC = ("Name resolution and definite assignment over every function (names that resolve to nothing, locals no path can have bound), signature fitting of every call whose callee is resolved (package functions, methods, classes, callbacks passed as arguments or kept in tables, standard library), "
        "arity of unpacked results, members of package and standard library modules, attributes of the package's own objects, and fields of format strings: each report is a construct that raises whenever it is reached.")

TRANSPARENT = {"staticmethod", "classmethod", "contextmanager", "contextlib.contextmanager", "functools.lru_cache", "lru_cache", "abstractmethod", "abc.abstractmethod", "functools.cache", "cache"}
STD = set(sys.stdlib_module_names)
PKG = "opt_einsum"


# ------------------------------------------------------------------ scopes and resolution
def own_locals(f):
    if not hasattr(f, "_own"):
        f._own = _own_locals(f)
    return f._own


def own_imports(p, f):
    if not hasattr(f, "_imp"):
        imp, st = {}, set()
        for s in walk_own(f.node):
            if isinstance(s, ast.Import):
                for al in s.names:
                    p.bind_import(f.mod, al, imp)
            elif isinstance(s, ast.ImportFrom):
                p.bind_from(f.mod, s, imp)
            elif isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                st.add(s.id)
        f._imp = {k: v for k, v in imp.items() if k not in st and k not in f.all_params()}
    return f._imp


class Env:
    """Resolution of expressions inside one function (or a module's top level)."""

    def __init__(self, w, mod, fn=None, lam=()):
        self.w, self.p, self.mod, self.fn = w, w.p, mod, fn
        self.loc = scope(fn) if fn is not None else set()

    def home(self, name):
        """the function around here whose local the name is"""
        f = self.fn
        while f is not None:
            if name in own_locals(f):
                return f
            f = f.outer
        return None

    def term(self, e):
        """what a dotted name outside the local scopes means (func / class / mod / ext / gvar), or None"""
        if isinstance(e, ast.Name):
            h = self.home(e.id)
            if h is not None:
                imp = own_imports(self.p, h)
                if e.id in imp:
                    return self.p.resolve(imp[e.id])
                return None
            t = self.mod.ns.get(e.id)
            if t is None:
                return self.w.ext("builtins." + e.id) if e.id in flow.BUILTINS else None
            return self.p.resolve(t)
        if isinstance(e, ast.Attribute):
            b = self.term(e.value)
            if b is None:
                return None
            if b.op == "mod":
                return self.p.modattr(b, e.attr)
            if b.op == "ext":
                return self.w.ext(b.a[0] + "." + e.attr)
        return None

    def cands(self, e, depth=0):
        """callables an expression may be: [(kind, node, fn | None, bound self, given positional, given keywords)], all known?"""
        if depth > 6:
            return [], False
        if isinstance(e, ast.IfExp):
            a, x = self.cands(e.body, depth + 1)
            b, y = self.cands(e.orelse, depth + 1)
            return a + b, x and y
        if isinstance(e, ast.BoolOp):
            out, ok = [], True
            for v in e.values:
                a, x = self.cands(v, depth + 1)
                out, ok = out + a, ok and x
            return out, ok
        if isinstance(e, ast.Lambda):
            return [Cand(e, None, False)], True
        if isinstance(e, ast.Call):
            t = self.term(e.func)
            if t is not None and t.op == "ext" and t.a[0] == "functools.partial" and e.args and not any(isinstance(a, ast.Starred) for a in e.args) and all(k.arg for k in e.keywords):
                cs, ok = self.cands(e.args[0], depth + 1)
                return [c.more(len(e.args) - 1, [k.arg for k in e.keywords]) for c in cs], ok
            return [], False
        if isinstance(e, ast.Subscript):
            return self.w.table(self, e.value, depth + 1)
        if isinstance(e, ast.Name):
            h = self.home(e.id)
            if h is None:
                return self.static(e)
            # a local: everything it is assigned, and what callers pass when it is a parameter
            out, ok = [], True
            vals = self.w.assigned(h).get(e.id)
            if vals is None:
                ok, vals = False, []
            he = self.w.env(h)
            for v in vals:
                if isinstance(v, FN):
                    f = self.w.bynode.get(id(v))
                    if f is not None and not opaque(f):
                        out.append(Cand(v, f, False))
                    else:
                        ok = False
                elif isinstance(v, ast.Constant) and v.value is None:
                    continue
                else:
                    a, x = he.cands(v, depth + 1)
                    out, ok = out + a, ok and x
            if e.id in h.all_params():
                a = self.w.passed(h, e.id)
                out += [c for c in a if c not in out]
                ok = False
            return out, ok
        return self.static(e)

    def static(self, e):
        t = self.term(e)
        if t is not None:
            if t.op == "func":
                f = self.p.fns[t.a[0]]
                return self.w.wrapped(f) if opaque(f) else ([Cand(f.node, f, False)], True)
            if t.op == "class":
                c = self.p.classes[t.a[0]]
                m = self.p.find_method(c, "__init__")
                if m is not None and not self.w.foreign(c):
                    return [Cand(m.node, m, True)], True
                return [], False
            if t.op == "gvar":
                return self.w.gvalue(t)
            return [], False
        # self.method
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and self.fn is not None:
            f = self.fn
            while f is not None and f.cls is None:
                f = f.outer
            if f is not None and f.params() and e.value.id == f.params()[0] and not any(ast.unparse(d) in ("staticmethod", "classmethod") for d in f.decorators) and self.home(e.value.id) is f:
                return self.w.methods(f.cls, e.attr)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super" and self.fn is not None:
            f = self.fn
            while f is not None and f.cls is None:
                f = f.outer
            if f is not None:
                for b in f.cls.bases:
                    m = self.p.find_method(b, e.attr)
                    if m is not None and not opaque(m):
                        return [Cand(m.node, m, True)], True
        return [], False


class Cand:
    def __init__(self, node, fn, bound, npos=0, kws=(), alt=False):
        self.node, self.fn, self.bound, self.npos, self.kws, self.alt = node, fn, bound, npos, tuple(kws), alt

    def more(self, n, kws):
        return Cand(self.node, self.fn, self.bound, self.npos + n, self.kws + tuple(kws), self.alt)

    def __eq__(self, o):
        return (self.node, self.bound, self.npos, self.kws) == (o.node, o.bound, o.npos, o.kws)

    __hash__ = None

    @property
    def name(self):
        return self.fn.fq if self.fn is not None else "<lambda>"

    def misfit(self, npos, kws, star, dstar):
        a = self.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        ponly = {x.arg for x in a.posonlyargs}
        if self.bound:
            names = names[1:]
        npos += self.npos
        if npos > len(names) and a.vararg is None:
            return f"takes {len(names)} positional arguments but {npos} are given"
        kwo = [x.arg for x in a.kwonlyargs]
        for k in kws:
            if k not in kwo and (k not in names or k in ponly) and a.kwarg is None:
                return f"has no parameter `{k}`"
            if k in names[:npos] and k not in ponly:
                return f"gets `{k}` twice"
        if star or dstar:
            return None
        given = set(kws) | set(self.kws)
        req = names[: len(names) - len(a.defaults)] if len(a.defaults) <= len(names) else []
        miss = [n for n in req[npos:] if n not in given]
        miss += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in given]
        return f"is called without `{miss[0]}`" if miss else None


def opaque(f):
    return any(ast.unparse(d).split("(")[0] not in TRANSPARENT for d in f.decorators)


def shape_of(call):
    n = sum(not isinstance(a, ast.Starred) for a in call.args)
    return n, [k.arg for k in call.keywords if k.arg], any(isinstance(a, ast.Starred) for a in call.args), any(k.arg is None for k in call.keywords)


class World:
    def __init__(self, ctx):
        self.p = ctx.p
        self.bynode = {id(f.node): f for f in self.p.fns.values()}
        self._env, self._as, self._calls, self._tab, self._res = {}, {}, None, {}, None

    def ext(self, n):
        from sa.terms import mk
        return mk("ext", n)

    def env(self, fn):
        if fn.fq not in self._env:
            self._env[fn.fq] = Env(self, fn.mod, fn)
        return self._env[fn.fq]

    def menv(self, mod):
        k = "module " + mod.name
        if k not in self._env:
            self._env[k] = Env(self, mod)
        return self._env[k]

    def foreign(self, c):
        seen, st = set(), [c]
        while st:
            x = st.pop()
            if x.fq in seen:
                continue
            seen.add(x.fq)
            if len(x.bases) != len([b for b in x.node.bases if ast.unparse(b) not in ("object", "ABC", "abc.ABC")]) or x.node.decorator_list or any(k.arg == "metaclass" and ast.unparse(k.value).split(".")[-1] != "ABCMeta" for k in x.node.keywords):
                return True
            st += x.bases
        return False

    def assigned(self, f):
        """{local: [value node]}; a local bound in another way (loops, unpacking) is missing"""
        if f.fq in self._as:
            return self._as[f.fq]
        out, lost = {p: [] for p in f.params()}, set()
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        out.setdefault(t.id, []).append(n.value)
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + n.value.elts):
                        for x, v in zip(t.elts, n.value.elts):
                            if isinstance(x, ast.Name):
                                out.setdefault(x.id, []).append(v)
                    else:
                        lost.update(targets(t))
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                if n.value is not None:
                    out.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, ast.NamedExpr):
                out.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                lost.update(targets(n.target))
            elif isinstance(n, ast.comprehension):
                lost.update(targets(n.target))
            elif isinstance(n, ast.AugAssign):
                lost.update(targets(n.target))
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        lost.update(targets(i.optional_vars))
            elif isinstance(n, FN):
                out.setdefault(n.name, []).append(n)
            elif isinstance(n, (ast.ExceptHandler, ast.ClassDef)) and n.name:
                lost.add(n.name)
        for x in lost:
            out.pop(x, None)
        self._as[f.fq] = out
        return out

    def calls(self):
        """every call of the package: [(env, call node)]"""
        if self._calls is None:
            self._calls = []
            for f in self.p.fns.values():
                for n in walk_own(f.node):
                    for c in self._in(n):
                        self._calls.append((self.env(f), c))
            for m in self.p.mods.values():
                e = self.menv(m)
                for s in m.tree.body:
                    st = [s]
                    while st:
                        n = st.pop()
                        if isinstance(n, FN):
                            st += n.decorator_list + n.args.defaults
                            continue
                        if isinstance(n, ast.ClassDef):
                            st += n.decorator_list + n.bases
                            st += [x for b in n.body for x in ([b] if not isinstance(b, FN) else b.args.defaults)]
                            continue
                        if isinstance(n, ast.Lambda):
                            continue
                        if isinstance(n, ast.Call):
                            self._calls.append((e, n))
                        st.extend(ast.iter_child_nodes(n))
        return self._calls

    def resolved(self):
        if self._res is None:
            self._res = [(env, c, env.static(c.func)[0] if isinstance(c.func, (ast.Name, ast.Attribute)) else []) for env, c in self.calls()]
        return self._res

    @staticmethod
    def _in(n):
        if isinstance(n, ast.Call):
            yield n
        if isinstance(n, ast.Lambda):
            lam = {x.arg for x in n.args.args + n.args.kwonlyargs}
            for x in ast.walk(n.body):
                if isinstance(x, ast.Call) and not any(isinstance(y, ast.Name) and y.id in lam for y in ast.walk(x.func)):
                    yield x

    def passed(self, f, name):
        """callables passed for a parameter: its default and the arguments of the resolved calls"""
        out = []
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        d = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        if name in d:
            out += self.menv(f.mod).cands(d[name], 5)[0]
        if pos and name == pos[0] and f.outer is None and f.cls is None:
            out += [Cand(g.node, g, False) for g in self.p.fns.values() if g.outer is None and g.cls is None and g.decorators and self.wrapper(g) is f]
        for env, c, cs0 in self.resolved():
            arg = None
            cs = [x for x in cs0 if x.node is f.node]
            part = None
            if not cs:
                t = env.term(c.func)
                if t is not None and t.op == "ext" and t.a[0] == "functools.partial" and c.args:
                    cs = [x for x in env.static(c.args[0])[0] if x.node is f.node] if isinstance(c.args[0], (ast.Name, ast.Attribute)) else []
                    part = c.args[1:]
            if not cs:
                continue
            for k in c.keywords:
                if k.arg == name:
                    arg = k.value
            ps = pos[1:] if cs[0].bound else pos
            args = c.args if part is None else part
            if arg is None and name in ps and not any(isinstance(x, ast.Starred) for x in args):
                i = ps.index(name)
                if i < len(args):
                    arg = args[i]
            if arg is not None:
                out += env.cands(arg, 5)[0]
        return out

    def wrapper(self, f):
        """the package function a single plain decorator is"""
        if len(f.decorators) == 1 and isinstance(f.decorators[0], (ast.Name, ast.Attribute, ast.Call)):
            d = f.decorators[0]
            if isinstance(d, ast.Call):
                if d.args or any(k.arg is None for k in d.keywords):
                    return None
                d = d.func
            t = self.menv(f.mod).term(d)
            if t is not None and t.op == "func":
                return self.p.fns[t.a[0]]
        return None

    def wrapped(self, f):
        """a function decorated by a package function that returns one of its nested functions"""
        d = self.wrapper(f)
        if d is None:
            return [], False
        out = []
        late = isinstance(f.decorators[0], ast.Call)
        for n in walk_own(d.node):
            if isinstance(n, ast.Return):
                if late and isinstance(n.value, ast.Call) and "partial" in ast.unparse(n.value.func):
                    continue    # the decorator with its options filled in
                g = self.p.fns.get(f"{d.fq}.<{n.value.id}>") if isinstance(n.value, ast.Name) else None
                if g is None or any("wraps" not in ast.unparse(x) for x in g.decorators):
                    return [], False
                out += [Cand(h.node, h, False, alt=True) for h in self.p.fns.values() if h.outer is d and h.node.name == g.node.name]
        return out, bool(out)

    def methods(self, cls, name):
        out, ok = [], True
        m = self.p.find_method(cls, name)
        if m is not None and name in {k for c in self.mro(cls) for k in c.props}:
            return [], False
        if m is not None and not opaque(m) and not stub(m) and not any(ast.unparse(d) in ("staticmethod", "classmethod") for d in m.decorators):
            out.append(Cand(m.node, m, True))
        else:
            ok = False
        for s in self.p.classes.values():
            if s is not cls and cls in self.mro(s) and name in s.methods and not opaque(s.methods[name]) and not any(ast.unparse(d) in ("staticmethod", "classmethod") for d in s.methods[name].decorators):
                out.append(Cand(s.methods[name].node, s.methods[name], True))
        return out, ok

    def mro(self, c):
        out, st = [], [c]
        while st:
            x = st.pop(0)
            if x not in out:
                out.append(x)
                st += x.bases
        return out

    def gvalue(self, t):
        from sa.graph import global_value
        m, v = global_value(self.p, t.a[0], t.a[1])
        if v is None or isinstance(v, (ast.Dict, ast.List, ast.Tuple)):
            return [], False
        return self.menv(m).cands(v, 4)

    def table(self, env, e, depth):
        """the callables of a module-level table"""
        t = env.term(e)
        if t is None or t.op != "gvar":
            return [], False
        if t in self._tab:
            return self._tab[t]
        from sa.graph import global_value
        self._tab[t] = ([], False)
        m, v = global_value(self.p, t.a[0], t.a[1])
        if m is None:
            return [], False
        me = self.menv(m)
        out = []
        if isinstance(v, ast.Dict):
            for x in v.values:
                out += me.cands(x, depth + 1)[0]
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Assign) and any(isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == t.a[1] for x in s.targets):
                out += me.cands(s.value, depth + 1)[0]
        self._tab[t] = (out, False)
        return self._tab[t]


def stub(f):
    b = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return not b or all(isinstance(s, (ast.Raise, ast.Pass)) for s in b) or any("abstractmethod" in ast.unparse(d) for d in f.decorators)


def world(ctx):
    if not hasattr(ctx, "_world"):
        ctx._world = World(ctx)
    return ctx._world


# ------------------------------------------------------------------ rules
def r_names(ctx):
    R = "names are bound"
    for m in ctx.p.mods.values():
        bad = [(n, f"the name `{x}` is bound nowhere") for n, x in flow.undefined(m.tree)]
        subs = {k.rsplit(".", 1)[-1] for k in ctx.p.mods if k.startswith(m.name + ".")}
        bad += [(n, f"`{n.id}` is used in {f} where no path has bound it") for n, f in flow.unbound(m.tree) if not (f == "module" and n.id in subs)]
        for n, msg in bad:
            ctx.put(False, R, f"{m.name}: {n.id}", f"{m.rel}:{n.lineno}", msg)
        if not bad:
            ctx.put(True, R, f"{m.name}: {sum(isinstance(n, ast.Name) for n in ast.walk(m.tree))} names", m.rel)


def forwards(x):
    """the parameter a function calls with its own *args and **kwargs"""
    a = x.node.args
    if x.fn is None or a.vararg is None or isinstance(x.node, ast.Lambda):
        return None
    for n in walk_own(x.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in x.fn.params() and len(n.args) == 1 and isinstance(n.args[0], ast.Starred) and isinstance(n.args[0].value, ast.Name) and n.args[0].value.id == a.vararg.arg:
            if not n.keywords and a.kwarg is None or len(n.keywords) == 1 and n.keywords[0].arg is None and a.kwarg is not None and isinstance(n.keywords[0].value, ast.Name) and n.keywords[0].value.id == a.kwarg.arg:
                return n.func.id
    return None


def handed(env, c, x, q):
    """the callables given for the parameter q of x and the arguments they will get"""
    names = x.fn.params()[1:] if x.bound else x.fn.params()
    kwo = [y.arg for y in x.node.args.kwonlyargs]
    if any(isinstance(a, ast.Starred) for a in c.args[: len(names)]) or q not in names or names.index(q) >= len(c.args):
        return
    rest = c.args[len(names):]
    kws = [k.arg for k in c.keywords if k.arg and k.arg not in names + kwo]
    cs, _ = env.cands(c.args[names.index(q)])
    for y in cs:
        yield c.args[names.index(q)], y, sum(not isinstance(a, ast.Starred) for a in rest), kws, any(isinstance(a, ast.Starred) for a in rest), any(k.arg is None for k in c.keywords)


def r_calls(ctx):
    R = "calls fit their callee"
    w = world(ctx)
    ok, todo, num = {}, [], 0

    def key(env, e):
        """uses of one local are judged together: a callback called in several ways (by case) must fit one of them"""
        nonlocal num
        num += 1
        if isinstance(e, ast.Name) and env.home(e.id) is not None:
            return env.home(e.id).fq, e.id
        return num

    for env, c in w.calls():
        where = f"{env.mod.rel}:{c.lineno}"
        me = env.fn.fq if env.fn is not None else env.mod.name
        cs, _ = env.cands(c.func)
        k = key(env, c.func)
        for x in cs:
            todo.append((k, x, shape_of(c), me, where, ast.unparse(c.func), c))
            q = forwards(x)
            if q is not None and not x.misfit(*shape_of(c)):
                for arg, y, *sh in handed(env, c, x, q):
                    todo.append((key(env, arg), y, tuple(sh), me, where, f"{y.name} through {x.name}", c))
        t = env.term(c.func)
        if t is not None and t.op == "ext" and t.a[0] == "functools.partial" and c.args:
            cs, _ = env.cands(c.args[0])
            for x in cs:
                y = x.more(len(c.args) - 1, [])
                msg = y.misfit(0, [k.arg for k in c.keywords if k.arg], True, True)
                if msg:
                    ctx.put(False, R, f"{me}: partial of {x.name}", where, f"{x.name} {msg}")
                else:
                    ok[me] = ok.get(me, 0) + 1
        if t is not None and t.op == "ext" and (t.a[0].split(".")[0] in STD):
            msg = std_misfit(t.a[0], c)
            if msg:
                ctx.put(False, R, f"{me}: {t.a[0]}", where, msg)
            elif msg is None:
                ok[me] = ok.get(me, 0) + 1
    groups = {}
    for t in todo:
        groups.setdefault((t[0], id(t[1].node), t[1].bound, t[1].npos, t[1].kws), []).append(t)
    for g in groups.values():
        ms = [t[1].misfit(*t[2]) for t in g]
        for t, msg in zip(g, ms):
            if msg and (all(ms) and not t[1].alt or all(x[1].misfit(*x[2]) for x in todo if x[6] is t[6] and x[0] == t[0])):
                ctx.put(False, R, f"{t[3]}: {t[5]}", t[4], f"{t[1].name} {msg}")
            elif not msg:
                ok[t[3]] = ok.get(t[3], 0) + 1
    for me, n in sorted(ok.items()):
        ctx.put(True, R, f"{me}: {n} resolved calls", "")


def std_object(name):
    parts = name.split(".")
    for i in range(len(parts), 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:i]))
        except ImportError:
            continue
        for x in parts[i:]:
            if not hasattr(o, x):
                return False, None
            o = getattr(o, x)
        return True, o
    return None, None


def std_misfit(name, call):
    """None: fits; str: does not; False: unknown"""
    ok, o = std_object(name)
    if not ok:
        return False
    n, kws, star, dstar = shape_of(call)
    try:
        sig = inspect.signature(o)
    except (ValueError, TypeError):
        return False
    try:
        if star or dstar:
            sig.bind_partial(*[0] * n, **{k: 0 for k in kws})
        else:
            sig.bind(*[0] * n, **{k: 0 for k in kws})
    except TypeError as e:
        return f"{name}: {e}"
    return None


def r_members(ctx):
    R = "members exist"
    w = world(ctx)
    for m in ctx.p.mods.values():
        bad, n = [], 0
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ImportFrom):
                ns = {}
                ctx.p.bind_from(m, s, ns)
                for al in s.names:
                    t = ns[al.asname or al.name]
                    if al.name == "*":
                        continue
                    n += 1
                    if t.op == "from":
                        r = ctx.p.resolve(t)
                        if r.op == "ext" and not t.a[0].endswith("_version") and t.a[1] != "_version":
                            bad.append((s, f"{t.a[0]} has no `{t.a[1]}`"))
                    elif t.op == "ext" and t.a[0].split(".")[0] in STD and std_object(t.a[0])[0] is False:
                        bad.append((s, f"there is no {t.a[0]}"))
            elif isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in s.targets) and isinstance(s.value, (ast.List, ast.Tuple)):
                for x in s.value.elts:
                    if isinstance(x, ast.Constant) and isinstance(x.value, str):
                        n += 1
                        if x.value not in m.ns and m.name + "." + x.value not in ctx.p.mods:
                            bad.append((x, f"`__all__` names {x.value}, which the module does not define"))
        fns = [f for f in ctx.p.fns.values() if f.mod is m]
        for env, nodes in [(w.env(f), walk_own(f.node)) for f in fns] + [(w.menv(m), top_nodes(m))]:
            for x in nodes:
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                    t = env.term(x)
                    if t is None or t.op != "ext":
                        continue
                    n += 1
                    if t.a[0].startswith(PKG + ".") and "_version" not in t.a[0]:
                        bad.append((x, f"there is no {t.a[0]}"))
                    elif t.a[0].split(".")[0] in STD and std_object(t.a[0])[0] is False:
                        bad.append((x, f"there is no {t.a[0]}"))
        for x, msg in bad:
            ctx.put(False, R, m.name, f"{m.rel}:{x.lineno}", msg)
        if not bad:
            ctx.put(True, R, f"{m.name}: {n} members", m.rel)


def top_nodes(m):
    st = list(m.tree.body)
    while st:
        n = st.pop()
        if isinstance(n, FN + (ast.ClassDef, ast.Lambda)):
            continue
        yield n
        st.extend(ast.iter_child_nodes(n))


def attrs_of(w, c):
    """names of the attributes objects of the class (or of classes related to it) can have; None: cannot be known"""
    fam = family(w, c)
    if any(w.foreign(x) for x in fam):
        return None
    have = {"__class__", "__dict__", "__doc__", "__module__", "__init__", "__name__", "__repr__", "__str__"}
    for x in fam:
        have |= set(x.methods) | set(x.props) | set(x.setters)
        if "__getattr__" in x.methods:
            return None
        for b in x.node.body:
            if isinstance(b, (ast.Assign, ast.AnnAssign)):
                for t in (b.targets if isinstance(b, ast.Assign) else [b.target]):
                    have |= set(targets(t))
        for n in ast.walk(x.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                have.add(n.attr)
            if isinstance(n, ast.Name) and n.id in ("setattr", "vars", "__getattr__") or isinstance(n, ast.Attribute) and n.attr == "__dict__":
                return None
    return have


def r_attrs(ctx):
    R = "attributes of the package's objects exist"
    w = world(ctx)
    for c in ctx.p.classes.values():
        have = attrs_of(w, c)
        if have is None:
            continue
        bad, n = [], 0
        for f in list(c.methods.values()) + list(c.props.values()) + list(c.setters.values()):
            if not f.params() or any(ast.unparse(d) in ("staticmethod", "classmethod") for d in f.decorators):
                continue
            me = f.params()[0]
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me:
                    n += 1
                    if x.attr not in have and not guarded(f.node, x):
                        bad.append((x, f"objects of {c.fq} have no attribute `{x.attr}`"))
        for x, msg in bad:
            ctx.put(False, R, c.fq, f"{c.mod.rel}:{x.lineno}", msg)
        if not bad:
            ctx.put(True, R, f"{c.fq}: {n} attribute reads", c.mod.rel)


def ptypes(w):
    """{(function, parameter): class} of the parameters that only ever get an object of one class of the package"""
    if hasattr(w, "_pt"):
        return w._pt
    got = {}
    for env, c in w.calls():
        if any(isinstance(a, ast.Starred) for a in c.args):
            continue
        cs, _ = env.cands(c.func)
        for x in cs:
            if x.fn is None or x.npos:
                continue
            ps = x.fn.params()[1:] if x.bound else x.fn.params()
            for n, a in list(zip(ps, c.args)) + [(k.arg, k.value) for k in c.keywords if k.arg]:
                got.setdefault((x.fn.fq, n), []).append((env, a))
    out, ch = {}, True
    while ch:
        ch = False
        for k, vals in got.items():
            if k in out:
                continue
            ts = set()
            for env, a in vals:
                t = None
                if isinstance(a, ast.Name):
                    h = env.home(a.id)
                    if h is not None and a.id in h.params() and not w.assigned(h).get(a.id):
                        if h.cls is not None and h.params()[0] == a.id and not h.decorators:
                            t = h.cls.fq
                        else:
                            t = out.get((h.fq, a.id))
                ts.add(t)
            if len(ts) == 1 and None not in ts:
                out[k] = ts.pop()
                ch = True
    w._pt = out
    return out


def family(w, c):
    fam = {x.fq: x for x in w.mro(c)}
    for s in w.p.classes.values():
        if c in w.mro(s):
            for x in w.mro(s):
                fam[x.fq] = x
    return fam.values()


def r_objects(ctx):
    R = "objects handed on are used as they are"
    w = world(ctx)
    pt = ptypes(w)
    k = 0
    for f in ctx.p.fns.values():
        env = w.env(f)
        calls = {id(n.func): n for n in walk_own(f.node) if isinstance(n, ast.Call)}
        for n in walk_own(f.node):
            if not (isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)):
                continue
            h = env.home(n.id)
            c = pt.get((h.fq, n.id)) if h is not None else None
            if c is None or w.assigned(h).get(n.id) or w.foreign(ctx.p.classes[c]):
                continue
            cls = ctx.p.classes[c]
            if id(n) in calls:
                k += 1
                m = ctx.p.find_method(cls, "__call__")
                if m is None:
                    ctx.put(False, R, f"{f.fq}: {n.id}", f"{f.mod.rel}:{n.lineno}", f"objects of {c} cannot be called")
                elif not opaque(m):
                    msg = Cand(m.node, m, True).misfit(*shape_of(calls[id(n)]))
                    if msg:
                        ctx.put(False, R, f"{f.fq}: {n.id}(...)", f"{f.mod.rel}:{n.lineno}", f"{m.fq} {msg}")
        for n in walk_own(f.node):
            if not (isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load)):
                continue
            h = env.home(n.value.id)
            c = pt.get((h.fq, n.value.id)) if h is not None else None
            if c is None or w.assigned(h).get(n.value.id) or w.foreign(ctx.p.classes[c]):
                continue
            cls = ctx.p.classes[c]
            have = attrs_of(w, cls)
            if have is None:
                continue
            k += 1
            if n.attr not in have and not guarded(f.node, n):
                ctx.put(False, R, f"{f.fq}: {n.value.id}.{n.attr}", f"{f.mod.rel}:{n.lineno}", f"objects of {c} have no attribute `{n.attr}`")
            elif id(n) in calls:
                m = cls.methods.get(n.attr) or ctx.p.find_method(cls, n.attr)
                if m is not None and not opaque(m) and not stub(m):
                    msg = Cand(m.node, m, True).misfit(*shape_of(calls[id(n)]))
                    if msg:
                        ctx.put(False, R, f"{f.fq}: {n.value.id}.{n.attr}(...)", f"{f.mod.rel}:{n.lineno}", f"{m.fq} {msg}")
    ctx.put(True, R, f"{k} uses of {len(pt)} parameters of a known class", "")


def guarded(fn, x):
    """inside a try that catches AttributeError, or under hasattr"""
    for t in ast.walk(fn):
        if isinstance(t, ast.Try) and any(x is y for b in t.body for y in ast.walk(b)):
            return True
        if isinstance(t, (ast.If, ast.IfExp)) and any(isinstance(y, ast.Name) and y.id == "hasattr" for y in ast.walk(t.test)):
            return True
    return False


def ret_len(w, c, seen):
    """the length of the tuples a candidate returns: int, or None when not fixed"""
    if c.fn is None or c.fn.is_gen or c.fn.fq in seen or c.fn.decorators:
        return None
    if isinstance(c.node, ast.Lambda):
        return len(c.node.body.elts) if isinstance(c.node.body, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in c.node.body.elts) else None
    out = set()
    env = w.env(c.fn)
    for n in walk_own(c.node):
        if isinstance(n, ast.Return):
            v = n.value
            if isinstance(v, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in v.elts):
                out.add(len(v.elts))
            elif isinstance(v, ast.Call):
                cs, ok = env.cands(v.func)
                ls = {ret_len(w, x, seen | {c.fn.fq}) for x in cs}
                if not ok or len(ls) != 1:
                    return None
                out |= ls
            else:
                return None
    return out.pop() if len(out) == 1 else None


def r_unpack(ctx):
    R = "unpacked results have the length expected"
    w = world(ctx)
    ok = 0
    for f in ctx.p.fns.values():
        env = w.env(f)
        for n in walk_own(f.node):
            if not isinstance(n, ast.Assign):
                continue
            for t in n.targets:
                if not isinstance(t, (ast.Tuple, ast.List)):
                    continue
                star = any(isinstance(x, ast.Starred) for x in t.elts)
                k = len(t.elts) - star
                lens = []
                if isinstance(n.value, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in n.value.elts):
                    lens = [(len(n.value.elts), "the value")]
                elif isinstance(n.value, ast.Call):
                    cs, _ = env.cands(n.value.func)
                    if not any(x.node.name == "__init__" for x in cs if isinstance(x.node, FN)):
                        lens = [(ret_len(w, x, frozenset()), x.name) for x in cs]
                for m, who in lens:
                    if m is None:
                        continue
                    if (m < k) if star else (m != k):
                        ctx.put(False, R, f"{f.fq}: {ast.unparse(t)[:60]}", f"{f.mod.rel}:{n.lineno}", f"{who} has {m} elements, {k} are unpacked")
                    else:
                        ok += 1
    ctx.put(True, R, f"{ok} unpackings of known length", "")


def r_format(ctx):
    R = "format strings match their arguments"
    ok = 0
    for m in ctx.p.mods.values():
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str)):
                continue
            npos, kws, star, dstar = shape_of(n)
            auto, msg = 0, None

            def fields(s):
                nonlocal auto, msg
                for _, name, spec, _ in string.Formatter().parse(s):
                    if name is None:
                        continue
                    head = name.split(".")[0].split("[")[0]
                    if head == "":
                        head, auto = str(auto), auto + 1
                    if head.isdigit():
                        if int(head) >= npos and not star:
                            msg = f"field {head} has no argument"
                    elif head not in kws and not dstar:
                        msg = f"field `{head}` has no argument"
                    if spec:
                        fields(spec)

            try:
                fields(n.func.value.value)
            except ValueError as e:
                msg = str(e)
            if msg:
                ctx.put(False, R, f"{m.name}: {n.func.value.value[:40]!r}", f"{m.rel}:{n.lineno}", msg)
            else:
                ok += 1
    ctx.put(True, R, f"{ok} format calls", "")


def check(ctx):
    ctx.fnset.update(ctx.p.fns)
    ctx.callsites += len(world(ctx).calls())
    ctx.rule("names", r_names)
    ctx.rule("calls", r_calls)
    ctx.rule("members", r_members)
    ctx.rule("attributes", r_attrs)
    ctx.rule("objects", r_objects)
    ctx.rule("unpacking", r_unpack)
    ctx.rule("format", r_format)
