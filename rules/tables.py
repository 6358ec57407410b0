"""Module-level tables, read statically: which function (with which preset options) stands under which key."""
import ast

from sa.engine import is_call
from sa.kit import Undecided
from sa.terms import T, cval

LIMIT = 20000


class Fnv:
    """a function with options preset"""

    def __init__(self, fq, kw=None):
        self.fq, self.kw = fq, dict(kw or {})

    def __eq__(self, o):
        return isinstance(o, Fnv) and self.fq == o.fq and self.kw == o.kw

    def __hash__(self):
        return hash((self.fq, tuple(sorted(self.kw.items(), key=repr))))

    def __repr__(self):
        return self.fq.split(".", 1)[-1] + ("(" + ", ".join(f"{k}={v!r}" for k, v in self.kw.items()) + ")" if self.kw else "")


class Tables:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p

    def mod(self, short):
        m = next((m for m in self.p.mods.values() if m.short == short), None)
        if m is None:
            raise Undecided("module " + short)
        return m

    # ---------------------------------------------------------------- values
    def val(self, m, e, env=None):
        env = env or {}
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name) and e.id in env:
            return env[e.id]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return -self.val(m, e.operand, env)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.BitOr)):
            a, b = self.val(m, e.left, env), self.val(m, e.right, env)
            if isinstance(e.op, ast.BitOr):
                if isinstance(a, dict) and isinstance(b, dict):
                    return {**a, **b}
                raise Undecided(ast.unparse(e)[:60])
            return a + b if isinstance(e.op, ast.Add) else a - b if isinstance(e.op, ast.Sub) else a * b
        if isinstance(e, (ast.Tuple, ast.List)):
            return tuple(self.val(m, x, env) for x in e.elts)
        if isinstance(e, ast.Dict):
            out = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    d = self.val(m, v, env)
                    if not isinstance(d, dict):
                        raise Undecided(ast.unparse(v)[:60])
                    out.update(d)
                else:
                    out[self.val(m, k, env)] = self.val(m, v, env)
            return out
        if isinstance(e, ast.DictComp) and not any(g.is_async for g in e.generators):
            out = {}
            for en in self.gens(m, e.generators, env):
                out[self.val(m, e.key, en)] = self.val(m, e.value, en)
            return out
        if isinstance(e, ast.Call):
            return self.call(m, e, env)
        if isinstance(e, (ast.Name, ast.Attribute)):
            t = self.p.lookup_expr(m, e)
            if t is None and isinstance(e, ast.Attribute) and e.attr in ("items",):
                raise Undecided(ast.unparse(e))
            if t is None:
                raise Undecided(ast.unparse(e)[:60])
            return self.term(t)
        raise Undecided(ast.unparse(e)[:60])

    def call(self, m, e, env):
        name = None
        t = None
        if isinstance(e.func, (ast.Name, ast.Attribute)):
            t = self.p.lookup_expr(m, e.func)
            name = e.func.id if isinstance(e.func, ast.Name) and t is None else t.a[0] if t is not None and t.op == "ext" else None
        if name == "range" and not e.keywords:
            return tuple(range(*[self.val(m, a, env) for a in e.args]))
        if name in ("tuple", "list", "sorted") and len(e.args) == 1 and not e.keywords:
            return tuple(self.val(m, e.args[0], env))
        if name == "enumerate" and e.args:
            st = self.val(m, e.args[1], env) if len(e.args) > 1 else next((self.val(m, k.value, env) for k in e.keywords), 0)
            return tuple(enumerate(self.val(m, e.args[0], env), st))
        if name == "zip" and not e.keywords:
            return tuple(zip(*[self.val(m, a, env) for a in e.args]))
        if name == "dict":
            out = {}
            for a in e.args:
                d = self.val(m, a, env)
                out.update(d if isinstance(d, dict) else dict(d))
            for k in e.keywords:
                if k.arg is None:
                    out.update(self.val(m, k.value, env))
                else:
                    out[k.arg] = self.val(m, k.value, env)
            return out
        if isinstance(e.func, ast.Attribute) and e.func.attr == "fromkeys" and isinstance(e.func.value, ast.Name) and e.func.value.id == "dict" and len(e.args) == 2:
            v = self.val(m, e.args[1], env)
            return {k: v for k in self.val(m, e.args[0], env)}
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("items", "keys", "values", "copy") and not e.args:
            d = self.val(m, e.func.value, env)
            if isinstance(d, dict):
                return tuple(d.items()) if e.func.attr == "items" else tuple(d) if e.func.attr == "keys" else tuple(d.values()) if e.func.attr == "values" else dict(d)
        if name == "functools.partial" and len(e.args) == 1:
            f = self.val(m, e.args[0], env)
            if isinstance(f, Fnv):
                return Fnv(f.fq, {**f.kw, **{k.arg: self.val(m, k.value, env) for k in e.keywords if k.arg}})
        raise Undecided(ast.unparse(e)[:60])

    def gens(self, m, gs, env):
        if not gs:
            yield env
            return
        g = gs[0]
        for x in self.val(m, g.iter, env):
            en = self.bind(g.target, x, env)
            if g.ifs:
                raise Undecided("condition in a table")
            yield from self.gens(m, gs[1:], en)

    def bind(self, target, x, env):
        en = dict(env)
        if isinstance(target, ast.Name):
            en[target.id] = x
        elif isinstance(target, (ast.Tuple, ast.List)) and isinstance(x, tuple) and len(x) == len(target.elts):
            for t, y in zip(target.elts, x):
                en = self.bind(t, y, en)
        else:
            raise Undecided("loop target")
        return en

    def term(self, t):
        """value of an engine term"""
        if t.op == "func":
            return Fnv(t.a[0])
        if t.op == "const":
            return cval(t)
        if t.op == "gvar":
            return self.var(t.a[0], t.a[1])
        if is_call(t, "functools.partial") and len(t.a[1]) == 1:
            f = self.term(t.a[1][0])
            if isinstance(f, Fnv):
                return Fnv(f.fq, {**f.kw, **{k: self.term(v) for k, v in t.a[2]}})
        raise Undecided("table entry " + repr(t)[:60])

    # ---------------------------------------------------------------- variables
    def var(self, short, name):
        m = self.mod(short)
        state = {}

        def uses(n):
            return any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n))

        def run(body, env, depth=0):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Import, ast.ImportFrom)) or not uses(s):
                    continue
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
                    if s.value is not None:
                        state["v"] = self.val(m, s.value, env)
                    continue
                if isinstance(s, ast.AnnAssign) and not uses(s.target):
                    continue        # read only
                if isinstance(s, ast.Assign) and len(s.targets) == 1:
                    t = s.targets[0]
                    if isinstance(t, ast.Name) and t.id == name:
                        state["v"] = self.val(m, s.value, {**env, **({name: state["v"]} if "v" in state else {})})
                        continue
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name and isinstance(state.get("v"), dict):
                        state["v"] = {**state["v"], self.val(m, t.slice, env): self.val(m, s.value, env)}
                        continue
                    if not uses(t):
                        continue        # read only
                if isinstance(s, ast.For) and not s.orelse and all(isinstance(x, ast.Name) and x.id != name for x in [s.target]) and not any(
                        isinstance(x, ast.Name) and x.id == name and (isinstance(x.ctx, ast.Store)) for x in ast.walk(s)) and not any(
                        isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == name for x in ast.walk(s)) and not any(
                        isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == name for x in ast.walk(s)) and not any(
                        isinstance(x, ast.Call) and any(isinstance(a, ast.Name) and a.id == name for a in x.args) for x in ast.walk(s)):
                    continue        # read only
                if isinstance(s, ast.For) and not s.orelse:
                    its = self.val(m, s.iter, env)
                    if len(its) > LIMIT:
                        raise Undecided("long loop")
                    for x in its:
                        run(s.body, self.bind(s.target, x, env), depth + 1)
                    continue
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == name and s.value.func.attr == "update" and isinstance(state.get("v"), dict):
                    c = s.value
                    new = dict(state["v"])
                    for a in c.args:
                        d = self.val(m, a, env)
                        new.update(d if isinstance(d, dict) else dict(d))
                    for k in c.keywords:
                        if k.arg is None:
                            raise Undecided("update")
                        new[k.arg] = self.val(m, k.value, env)
                    state["v"] = new
                    continue
                raise Undecided(f"{name}: {ast.unparse(s)[:60]}")
        run(m.tree.body, {})
        if "v" not in state:
            raise Undecided("no value of " + name)
        return state["v"]

    def loc(self, short, name):
        m = self.mod(short)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                return f"{m.rel}:{n.lineno}"
        return m.rel

    # ---------------------------------------------------------------- thin wrappers
    def unwrap(self, f, targets, depth=4):
        """a function that only calls one of the targets with options preset, as that target"""
        while isinstance(f, Fnv) and f.fq not in targets and depth:
            depth -= 1
            if f.fq not in self.p.fns:
                raise Undecided("function " + f.fq)
            r = self.ctx.run(f.fq, opaque=frozenset(targets))
            t = r.eng.freeze(r.ret, r.state)
            g = t.a[0] if t.op == "call" else None
            if g is None:
                raise Undecided(f"{f.fq} is no wrapper")
            h = self.term(g)
            kw = dict(h.kw)
            ps = list(r.params.values())
            if list(t.a[1]) != ps[:len(t.a[1])]:
                raise Undecided(f"{f.fq} is no plain wrapper")
            for k, v in t.a[2]:
                if isinstance(v, T) and v.op == "const":
                    kw[k] = cval(v)
                elif not (isinstance(v, T) and v.op == "param"):
                    raise Undecided(f"{f.fq} is no plain wrapper")
            f = Fnv(h.fq, {**kw, **f.kw})
        return f
