"""Names and references: scopes of functions, what a function refers to, and the closure of references."""
import ast
import builtins

from .src import walk_own
from .terms import mk

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__version__", "__class__"}
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from targets(x)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)


def binds(n):
    """names bound by one node itself"""
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
        return [n.id]
    if isinstance(n, FN + (ast.ClassDef,)):
        return [n.name]
    if isinstance(n, (ast.Import, ast.ImportFrom)):
        return [a.asname or a.name.split(".")[0] for a in n.names]
    if isinstance(n, ast.ExceptHandler) and n.name:
        return [n.name]
    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
        return [n.name]
    return []


def own_locals(f):
    """names local to the function f (of Fn), comprehension variables included"""
    out = set(f.all_params())
    free = set()
    for n in walk_own(f.node):
        out.update(binds(n))
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            free.update(n.names)
    return out - free


def local_imports(p, f):
    ns = {}
    g = f
    chain = []
    while g is not None:
        chain.append(g)
        g = g.outer
    for g in reversed(chain):
        for n in walk_own(g.node):
            if isinstance(n, ast.Import):
                for al in n.names:
                    p.bind_import(g.mod, al, ns)
            elif isinstance(n, ast.ImportFrom):
                p.bind_from(g.mod, n, ns)
    return ns


def scope(f):
    """locals of f and of the functions around it"""
    out = set()
    while f is not None:
        out |= own_locals(f)
        f = f.outer
    return out


def lambda_params(node):
    out = {}
    for n in ast.walk(node):
        if isinstance(n, ast.Lambda):
            a = n.args
            ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            ps |= {x.arg for x in (a.vararg, a.kwarg) if x}
            for m in ast.walk(n.body):
                out.setdefault(id(m), set()).update(ps)
    return out


def refs(p, f):
    """[(term, node)]: what the body of f (lambdas included, nested functions not) refers to outside itself"""
    loc = scope(f)
    imp = local_imports(p, f)
    lam = lambda_params(f.node)
    out = []
    skip = set()
    nodes = []
    st = list(f.node.body) if isinstance(f.node.body, list) else [f.node.body]
    st += list(f.node.args.defaults) + [d for d in f.node.args.kw_defaults if d is not None]
    while st:
        n = st.pop()
        nodes.append(n)
        if isinstance(n, FN + (ast.ClassDef,)):
            continue
        if isinstance(n, (ast.AnnAssign,)):
            st += [x for x in (n.target, n.value) if x is not None]
            continue
        st.extend(ast.iter_child_nodes(n))
    for n in nodes:
        if not isinstance(n, (ast.Name, ast.Attribute)) or id(n) in skip:
            continue
        chain, e = [], n
        while isinstance(e, ast.Attribute):
            chain.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name) or not isinstance(e.ctx, ast.Load):
            continue
        if e.id in lam.get(id(e), ()):
            continue
        if e.id in imp and e.id in loc:
            t = p.resolve(imp[e.id])
        elif e.id in loc:
            continue
        else:
            t = f.mod.ns.get(e.id)
            if t is None:
                if e.id in BUILTINS:
                    t = mk("ext", "builtins." + e.id)
                else:
                    t = mk("ext", "?" + e.id)
            else:
                t = p.resolve(t)
        for a in reversed(chain):
            if t.op == "mod":
                t = p.modattr(t, a)
            elif t.op == "ext":
                t = mk("ext", t.a[0] + "." + a)
            else:
                break
        x = n
        while isinstance(x, ast.Attribute):
            x = x.value
            skip.add(id(x))
        out.append((t, n))
    return out


def global_value(p, modname, name):
    m = p.mods.get(modname) or p.mods.get("opt_einsum." + modname if modname else "opt_einsum")
    if m is None:
        return None, None
    val = None
    for s in ast.walk(m.tree):
        if isinstance(s, ast.Assign) and any(name in targets(t) for t in s.targets):
            val = s.value
        elif isinstance(s, ast.AnnAssign) and s.value is not None and name in targets(s.target):
            val = s.value
    return m, val


def expr_refs(p, m, e):
    out = []
    for n in ast.walk(e):
        if isinstance(n, (ast.Name, ast.Attribute)):
            t = p.lookup_expr(m, n)
            if t is not None:
                out.append((t, n))
    return out


def closure(p, start):
    """functions, globals and externals reachable by reference from the functions named in start
    -> (set of fq, set of (mod, name), {external name: (fn, node)})"""
    fns, glob, ext = set(), set(), {}
    st = list(start)
    while st:
        q = st.pop()
        if q in fns or q not in p.fns:
            continue
        fns.add(q)
        f = p.fns[q]
        st += [g for g in p.fns if g.startswith(q + ".<")]
        todo = refs(p, f)
        for d in f.decorators:
            todo += expr_refs(p, f.mod, d)
        while todo:
            t, n = todo.pop()
            if t.op == "func":
                st.append(t.a[0])
            elif t.op == "class":
                c = p.classes[t.a[0]]
                st += [m.fq for tab in (c.methods, c.props, c.setters) for m in tab.values()]
            elif t.op == "gvar":
                if t.a not in glob:
                    glob.add(t.a)
                    m, v = global_value(p, t.a[0], t.a[1])
                    if v is not None:
                        todo += expr_refs(p, m, v)
            elif t.op == "ext":
                ext.setdefault(t.a[0], (f, n))
    return fns, glob, ext
