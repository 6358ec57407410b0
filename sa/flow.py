"""Scopes and definite assignment: which names are bound where, and which may be bound at each use."""
import ast

from .graph import BUILTINS, FN, binds, targets

COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


class Scope:
    """kind: module / class / function / lambda / comp"""

    def __init__(self, kind, node, parent):
        self.kind, self.node, self.parent = kind, node, parent
        self.names, self.glob, self.nonl = set(), set(), set()
        self.binders = {}       # name -> nodes binding it

    def bind(self, n, node):
        self.names.add(n)
        self.binders.setdefault(n, []).append(node)

    def lookup(self, name):
        """(scope the name belongs to | None, own)"""
        s, first = self, True
        while s is not None:
            if s.kind == "class" and not first:
                s = s.parent
                continue
            if name in s.glob:
                while s.parent is not None:
                    s = s.parent
                return s if name in s.names else None
            if name in s.names and name not in s.nonl:
                return s
            if s.kind != "comp":
                first = False
            s = s.parent
        return None


def args_of(node):
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def build(tree):
    """-> (module scope, {id(node): scope} of every scope-making node, [(Name load node, scope)])"""
    mod = Scope("module", tree, None)
    table = {id(tree): mod}
    uses = []
    future = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in tree.body)

    def outer(s):
        while s.kind == "comp":
            s = s.parent
        return s

    def visit(n, s):
        if isinstance(n, FN):
            s.bind(n.name, n)
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                visit(d, s)
            if not future:
                a = n.args
                for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                    if x.annotation is not None:
                        visit(x.annotation, s)
                if n.returns is not None:
                    visit(n.returns, s)
            f = table[id(n)] = Scope("function", n, s)
            for x in getattr(n, "type_params", ()):
                f.bind(x.name, n)
            for x in args_of(n):
                f.bind(x, n.args)
            for b in n.body:
                visit(b, f)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                visit(d, s)
            f = table[id(n)] = Scope("lambda", n, s)
            for x in args_of(n):
                f.bind(x, n.args)
            visit(n.body, f)
            return
        if isinstance(n, ast.ClassDef):
            s.bind(n.name, n)
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                visit(d, s)
            c = table[id(n)] = Scope("class", n, s)
            c.bind("__class__", n)
            for b in n.body:
                visit(b, c)
            return
        if isinstance(n, COMP):
            visit(n.generators[0].iter, s)
            c = table[id(n)] = Scope("comp", n, s)
            for i, g in enumerate(n.generators):
                if i:
                    visit(g.iter, c)
                visit(g.target, c)
                for x in g.ifs:
                    visit(x, c)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                visit(x, c)
            return
        if isinstance(n, ast.NamedExpr):
            visit(n.value, s)
            outer(s).bind(n.target.id, n)
            return
        if isinstance(n, ast.Global):
            s.glob.update(n.names)
            return
        if isinstance(n, ast.Nonlocal):
            s.nonl.update(n.names)
            return
        if isinstance(n, ast.AnnAssign):
            visit(n.target, s)
            if n.value is not None:
                visit(n.value, s)
            if s.kind in ("module", "class") and not future:
                visit(n.annotation, s)
            return
        if type(n).__name__ == "TypeAlias":
            s.bind(n.name.id, n)
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                uses.append((n, s))
            elif n.id in s.glob:
                mod.bind(n.id, n)
            else:
                s.bind(n.id, n)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in binds(n):
                (mod if x in s.glob else s).bind(x, n)
            return
        for x in binds(n):
            s.bind(x, n)
        for c in ast.iter_child_nodes(n):
            visit(c, s)

    for b in tree.body:
        visit(b, mod)
    # names declared global somewhere and bound there
    return mod, table, uses


def undefined(tree):
    """[(node, name)] of names that resolve to nothing"""
    mod, table, uses = build(tree)
    star = any(isinstance(s, ast.ImportFrom) and any(a.name == "*" for a in s.names) for s in ast.walk(tree))
    if star or any(n.id in ("globals", "exec", "eval", "vars") for n, _ in uses) or any(getattr(n, "type_params", None) for n in ast.walk(tree)):
        return []
    return [(n, n.id) for n, s in uses if s.lookup(n.id) is None and n.id not in BUILTINS]


class MayBind:
    """Forward analysis of which local names may be bound; reports uses where the name cannot be."""

    def __init__(self, scope, table):
        self.scope, self.table = scope, table
        self.loc = {n for n in scope.names if n not in scope.glob and n not in scope.nonl}
        self.bad = []
        self.loops = []

    def run(self):
        n = self.scope.node
        start = set(args_of(n)) | {x.name for x in getattr(n, "type_params", ())} if isinstance(n, FN) else ({"__class__"} if self.scope.kind == "class" else set())
        if self.scope.kind == "module":
            start |= {x for x in self.loc if all(isinstance(b, ast.Name) and self._far(b) for b in self.scope.binders[x])}
        self.block(n.body, start)
        return self.bad

    def _far(self, b):
        return not any(b is x for s in self.scope.node.body for x in ast.walk(s) if not isinstance(s, FN))

    def bound_in(self, stmts):
        out = set()
        st = list(stmts)
        while st:
            n = st.pop()
            out.update(binds(n))
            if isinstance(n, ast.NamedExpr):
                out.add(n.target.id)
            if isinstance(n, FN + (ast.ClassDef, ast.Lambda)):
                continue
            st.extend(ast.iter_child_nodes(n))
        return out & self.loc

    @staticmethod
    def join(*ss):
        ss = [s for s in ss if s is not None]
        if not ss:
            return None
        return set().union(*ss)

    def use(self, e, st):
        """evaluate an expression: uses, then walrus bindings"""
        if e is None or st is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, (ast.Load, ast.Del)) and e.id in self.loc and e.id not in st and self.scope.lookup(e.id) is self.scope:
                self.bad.append(e)
            return
        if isinstance(e, (ast.Lambda, ast.GeneratorExp)):
            if isinstance(e, ast.GeneratorExp):
                self.use(e.generators[0].iter, st)
            else:
                for d in e.args.defaults:
                    self.use(d, st)
            return
        if isinstance(e, COMP):
            self.use(e.generators[0].iter, st)
            own = set()
            for g in e.generators:
                own |= set(targets(g.target)) | {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            for i, g in enumerate(e.generators):
                if i:
                    self.use(g.iter, st | own)
                for x in g.ifs:
                    self.use(x, st | own)
            w = {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)}
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.use(x, st | own | w)
            st |= w & self.loc
            return
        if isinstance(e, ast.NamedExpr):
            self.use(e.value, st)
            st.add(e.target.id)
            return
        if isinstance(e, (ast.BoolOp, ast.IfExp)):
            # parts may not be evaluated: bindings they make are possible, their uses are real when reached
            if isinstance(e, ast.IfExp):
                self.use(e.test, st)
                self.use(e.body, st)
                self.use(e.orelse, st)
            else:
                for v in e.values:
                    self.use(v, st)
            return
        for c in ast.iter_child_nodes(e):
            self.use(c, st)

    def store(self, t, st):
        if st is None:
            return
        if isinstance(t, ast.Name):
            st.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, st)
        elif isinstance(t, ast.Starred):
            self.store(t.value, st)
        else:
            self.use(t, st)

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def first(self, body, st):
        """the first pass of a loop sees only what was bound before it: its leading unconditional statements"""
        for s in body:
            if not isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Expr)):
                return
            if any(isinstance(n, (ast.BoolOp, ast.IfExp) + COMP) for n in ast.walk(s)):
                if any(isinstance(n, ast.NamedExpr) for n in ast.walk(s)):
                    return
                keep = len(self.bad)
                st = self.stmt(s, st)
                del self.bad[keep:]
                continue
            st = self.stmt(s, st)

    def stmt(self, s, st):
        if isinstance(s, FN):
            for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                self.use(d, st)
            st.add(s.name)
            return st
        if isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases:
                self.use(d, st)
            st.add(s.name)
            return st
        if isinstance(s, ast.Assign):
            self.use(s.value, st)
            for t in s.targets:
                self.store(t, st)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.use(s.value, st)
                self.store(s.target, st)
            return st
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                if s.target.id in self.loc and s.target.id not in st:
                    self.bad.append(s.target)
            else:
                self.use(s.target, st)
            self.use(s.value, st)
            self.store(s.target, st)
            return st
        if isinstance(s, ast.Return):
            self.use(s.value, st)
            return None
        if isinstance(s, ast.Raise):
            self.use(s.exc, st)
            self.use(s.cause, st)
            return None
        if isinstance(s, ast.Delete):
            for t in s.targets:
                self.use(t, st)
                if isinstance(t, ast.Name):
                    st.discard(t.id)
                elif isinstance(t, ast.Tuple):
                    for x in t.elts:
                        if isinstance(x, ast.Name):
                            st.discard(x.id)
            return st
        if isinstance(s, ast.If):
            self.use(s.test, st)
            return self.join(self.block(s.body, set(st)), self.block(s.orelse, set(st)))
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.use(s.iter, st)
            head = set(st) | self.bound_in(s.body) | self.bound_in([s.target])
            self.loops.append([])
            b = set(head)
            self.store(s.target, b)
            first = set(st)
            self.store(s.target, first)
            self.first(s.body, first)
            end = self.block(s.body, b)
            brk = self.loops.pop()
            return self.join(self.block(s.orelse, self.join(set(st), end if end is not None else None, head)), *brk)
        if isinstance(s, ast.While):
            head = set(st) | self.bound_in(s.body)
            self.use(s.test, head)
            forever = isinstance(s.test, ast.Constant) and bool(s.test.value)
            self.loops.append([])
            now = set(st)
            self.use(s.test, now)
            self.first(s.body, now)
            self.block(s.body, set(head))
            brk = self.loops.pop()
            after = None if forever else self.block(s.orelse, set(head))
            return self.join(after, *brk)
        if isinstance(s, ast.Break):
            if self.loops:
                self.loops[-1].append(set(st))
            return None
        if isinstance(s, ast.Continue):
            return None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, st)
            pre = set(st)
            end = self.block(s.body, set(st))
            return self.join(end, pre | self.bound_in(s.body)) if end is None else end | pre
        if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            pre = set(st)
            end = self.block(s.body, set(st))
            mid = pre | self.bound_in(s.body)
            hs = []
            for h in s.handlers:
                x = set(mid)
                self.use(h.type, x)
                if h.name:
                    x.add(h.name)
                x = self.block(h.body, x)
                if x is not None and h.name:
                    x.discard(h.name)
                hs.append(x)
            if end is not None:
                end = self.block(s.orelse, end)
            out = self.join(end, *hs)
            if s.finalbody:
                anyway = mid | self.bound_in(s.orelse) | set().union(*[self.bound_in(h.body) for h in s.handlers]) if s.handlers else mid | self.bound_in(s.orelse)
                f = self.block(s.finalbody, set(anyway))
                if out is None or f is None:
                    return None
                return out | self.bound_in(s.finalbody)
            return out
        if isinstance(s, ast.Match):
            self.use(s.subject, st)
            outs = [set(st)]
            for c in s.cases:
                x = set(st) | self.bound_in([c.pattern])
                self.use(c.guard, x)
                outs.append(self.block(c.body, x))
            return self.join(*outs)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            st.update(binds(s))
            return st
        if type(s).__name__ == "TypeAlias":
            st.add(s.name.id)
            return st
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
            return st
        for c in ast.iter_child_nodes(s):
            self.use(c, st)
        return st


def unbound(tree):
    """[(Name node, function name)]: uses of a local name no path can have bound"""
    mod, table, _ = build(tree)
    out = []
    for s in table.values():
        if s.kind in ("function", "module"):
            m = MayBind(s, table)
            for n in m.run():
                if s.kind == "module" and n.id in BUILTINS or any(n is x for x, _ in out):
                    continue
                out.append((n, getattr(s.node, "name", "module")))
    return out
