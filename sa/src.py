"""Parses the package under analysis and resolves names to definitions (no repository code is imported or run)."""
import ast
import os

from .terms import mk

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "opt_einsum"


class AnalysisBroken(Exception):
    """An anchor the rules need is gone: no verdict is possible."""


class Fn:
    def __init__(self, fq, node, mod, cls=None, outer=None):
        self.fq, self.node, self.mod, self.cls, self.outer = fq, node, mod, cls, outer
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))
        self.decorators = list(getattr(node, "decorator_list", []))

    @property
    def name(self):
        return self.fq.rsplit(".", 1)[-1]

    @property
    def loc(self):
        return f"{self.mod.rel}:{self.node.lineno}"

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def all_params(self):
        a = self.node.args
        out = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg:
            out.append(a.vararg.arg)
        out += [x.arg for x in a.kwonlyargs]
        if a.kwarg:
            out.append(a.kwarg.arg)
        return out


class Cls:
    def __init__(self, fq, node, mod):
        self.fq, self.node, self.mod = fq, node, mod
        self.methods, self.props, self.bases = {}, {}, []
        self.setters = {}


class Mod:
    def __init__(self, name, path, tree, rel, src):
        self.name, self.path, self.tree, self.rel, self.src = name, path, tree, rel, src
        self.ns = {}
        self.short = name[len(PKG) + 1:] if name != PKG else ""


def walk_own(node):
    """Nodes of a function body, not those of nested functions / lambdas / classes."""
    body = node.body if isinstance(node.body, list) else [node.body]
    st = list(reversed(body))
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(reversed(list(ast.iter_child_nodes(n))))


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods, self.fns, self.classes = {}, {}, {}
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"package directory {root} is missing")
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)
                parts = rel[:-3].split(os.sep)
                if parts[-1] == "__init__":
                    parts = parts[:-1]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    raise AnalysisBroken(f"{rel} does not parse: {e}")
                m = Mod(".".join(parts), p, tree, rel, src)
                m.is_pkg = f == "__init__.py"
                self.mods[m.name] = m
        for m in self.mods.values():
            self._index(m)
        for c in self.classes.values():
            self._bases(c)

    # ------------------------------------------------------------ indexing
    def _index(self, m):
        pre = m.short + "." if m.short else ""

        def stmts(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if any(self._is_overload(d) for d in s.decorator_list):
                        continue
                    f = Fn(pre + s.name, s, m)
                    self.fns[f.fq] = f
                    m.ns[s.name] = mk("func", f.fq)
                    self._nested(f)
                elif isinstance(s, ast.ClassDef):
                    c = Cls(pre + s.name, s, m)
                    self.classes[c.fq] = c
                    m.ns[s.name] = mk("class", c.fq)
                    for b in s.body:
                        if isinstance(b, ast.FunctionDef):
                            deco = [ast.unparse(d) for d in b.decorator_list]
                            f = Fn(f"{c.fq}.{b.name}", b, m, cls=c)
                            if any(d.endswith(".setter") for d in deco):
                                f.fq += ".setter"
                                c.setters[b.name] = f
                            elif "property" in deco or "functools.cached_property" in deco or "cached_property" in deco:
                                c.props[b.name] = f
                            else:
                                c.methods[b.name] = f
                            self.fns[f.fq] = f
                            self._nested(f)
                elif isinstance(s, ast.Import):
                    for al in s.names:
                        self.bind_import(m, al, m.ns)
                elif isinstance(s, ast.ImportFrom):
                    self.bind_from(m, s, m.ns)
                elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    for n in ast.walk(s):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            m.ns[n.id] = mk("gvar", m.short, n.id)
                elif isinstance(s, (ast.If, ast.For, ast.While, ast.With)):
                    for n in ast.walk(getattr(s, "target", None) or ast.Pass()):
                        if isinstance(n, ast.Name):
                            m.ns[n.id] = mk("gvar", m.short, n.id)
                    stmts(s.body)
                    stmts(getattr(s, "orelse", []))
                elif isinstance(s, ast.Try):
                    stmts(s.body)
                    for h in s.handlers:
                        stmts(h.body)
                    stmts(s.orelse)
                    stmts(s.finalbody)

        stmts(m.tree.body)

    @staticmethod
    def _is_overload(d):
        return ast.unparse(d).split(".")[-1] == "overload"

    def _nested(self, f):
        for n in walk_own(f.node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                g = Fn(f"{f.fq}.<{n.name}>", n, f.mod, cls=None, outer=f)
                # two nested functions of the same name (if/else) get distinct names
                k = 2
                while g.fq in self.fns:
                    g.fq = f"{f.fq}.<{n.name}#{k}>"
                    k += 1
                self.fns[g.fq] = g
                self._nested(g)

    def bind_import(self, m, al, ns):
        if al.asname:
            ns[al.asname] = self.modref(al.name)
        else:
            ns[al.name.split(".")[0]] = self.modref(al.name.split(".")[0])

    def bind_from(self, m, s, ns):
        base = s.module or ""
        if s.level:
            pk = m.name.split(".")
            if not m.is_pkg:
                pk = pk[:-1]
            pk = pk[: len(pk) - (s.level - 1)]
            base = ".".join(pk + ([s.module] if s.module else []))
        for al in s.names:
            ns[al.asname or al.name] = self.member(base, al.name)

    def modref(self, name):
        if name == PKG or name.startswith(PKG + "."):
            return mk("mod", name)
        return mk("ext", name)

    def member(self, base, name):
        if base == PKG or base.startswith(PKG + "."):
            return mk("from", base, name)
        return mk("ext", base + "." + name)

    def resolve(self, t, depth=0):
        """Follow import aliases to the defining module."""
        while t.op == "from" and depth < 20:
            depth += 1
            base, name = t.a
            m = self.mods.get(base)
            if m is not None and name in m.ns and m.ns[name] is not t:
                t = m.ns[name]
            elif base + "." + name in self.mods:
                return mk("mod", base + "." + name)
            else:
                return mk("ext", base + "." + name)
        return t

    def modattr(self, modterm, name):
        m = self.mods.get(modterm.a[0])
        if m is not None and name in m.ns:
            return self.resolve(m.ns[name])
        if modterm.a[0] + "." + name in self.mods:
            return mk("mod", modterm.a[0] + "." + name)
        return mk("ext", modterm.a[0] + "." + name)

    def _bases(self, c):
        for b in c.node.bases:
            t = self.lookup_expr(c.mod, b)
            if t is not None and t.op == "class":
                c.bases.append(self.classes[t.a[0]])

    def lookup_expr(self, m, e):
        if isinstance(e, ast.Name):
            t = m.ns.get(e.id)
            return self.resolve(t) if t is not None else None
        if isinstance(e, ast.Attribute):
            b = self.lookup_expr(m, e.value)
            if b is None:
                return None
            if b.op == "mod":
                return self.modattr(b, e.attr)
            if b.op == "ext":
                return mk("ext", b.a[0] + "." + e.attr)
        return None

    def find_method(self, cls, name):
        seen, st = set(), [cls]
        while st:
            c = st.pop(0)
            if c.fq in seen:
                continue
            seen.add(c.fq)
            for tab in (c.methods, c.props):
                if name in tab:
                    return tab[name]
            st = c.bases + st
        return None

    def fn(self, fq):
        f = self.fns.get(fq)
        if f is None:
            raise AnalysisBroken(f"function {fq} is missing")
        return f

    def subclasses(self, fq):
        out = []
        for c in self.classes.values():
            st, seen = list(c.bases), set()
            while st:
                b = st.pop()
                if b.fq == fq:
                    out.append(c)
                    break
                st.extend(b.bases)
        return out
