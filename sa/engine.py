"""Flow-sensitive, interprocedural value-flow analysis over the syntax tree.

Every function is evaluated once per (inlined) call context over *terms*: values merge at control-flow joins into
gated terms, loops are summarised (folds / comprehensions where the update has that shape, opaque loop values
otherwise), and everything with an effect is recorded as an event together with the conditions that dominate it.
Nothing of the repository is executed; there is no path enumeration and no solver.
"""
import ast
import builtins

from .terms import (ADD, AND, ANY, FALSE, NONE, NOT, OR, TRUE, UNION, binop, cmp, const, contains, cval, idx, is_const, mk, phi, rebuild,
                    subst, subterms, truth)

UNDEF = mk("undef")
PURE_NEW = {"builtins.list", "builtins.set", "builtins.dict", "builtins.sorted", "collections.deque", "collections.Counter",
            "collections.defaultdict", "collections.OrderedDict", "builtins.bytearray"}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "add", "discard", "update", "clear", "sort", "reverse", "setdefault",
            "popleft", "appendleft", "popitem", "difference_update", "intersection_update", "symmetric_difference_update",
            "fill", "resize", "put", "itemset", "__setitem__", "__delitem__", "extendleft", "rotate", "setflags", "partition"}
BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
CMPS = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Is: "is",
        ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}


def ext(n):
    return mk("ext", n)


def callt(f, args=(), kws=()):
    return mk("call", f, tuple(args), tuple(kws))


def is_call(t, *names):
    """t is a call of one of the named external functions / package functions."""
    return t.op == "call" and t.a[0].op in ("ext", "func", "class") and t.a[0].a[0] in names


def mcall(t, *names):
    """t is a method call .name(...); returns the receiver or None."""
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in names:
        return t.a[0].a[0]
    return None


ARG_MUTATORS = {"heapq.heappush": (0,), "heapq.heappop": (0,), "heapq.heapify": (0,), "heapq.heappushpop": (0,),
                "heapq.heapreplace": (0,), "random.shuffle": (0,), "bisect.insort": (0,), "bisect.insort_left": (0,),
                "bisect.insort_right": (0,)}


def root_of(t):
    """The object a value is a part of (through subscripts, attributes, iteration)."""
    while t.op in ("idx", "attr", "elem", "take", "enter", "star", "next") and hasattr(t.a[0], "op"):
        t = t.a[0]
    return t


def mutated_params(p, fq):
    """Names of the parameters whose object a package function may modify (its effect summary)."""
    tab = p.__dict__.setdefault("_mutsum", {})
    if fq not in tab:
        tab[fq] = set()
        fn = p.fns.get(fq)
        if fn is None:
            return set()
        e = Engine(p)
        try:
            r = e.run(fq)
        except (RuntimeError, RecursionError):
            return set()
        inv = {t: n for n, t in r.params.items()}
        for ev in r.events:
            objs = []
            if ev.kind in ("mutate", "escape"):
                objs = [ev.obj]
            for o in objs:
                for alt in _alts(o):
                    q = root_of(alt)
                    if q in inv:
                        tab[fq].add(inv[q])
    return tab[fq]


def _alts(t):
    if t.op == "phi":
        return _alts(t.a[1]) + _alts(t.a[2])
    return [t]


EFFECTS = {"append", "extend", "insert", "pop", "popleft", "appendleft", "remove", "clear", "add", "discard", "update", "setdefault", "popitem", "sort", "reverse"}

class Event:
    __slots__ = ("kind", "fq", "node", "facts", "loops", "stack", "d", "n", "tries", "mod")

    def __init__(self, kind, fq, node, facts, loops, stack, d, n, tries, mod):
        self.kind, self.fq, self.node, self.facts, self.loops, self.stack = kind, fq, node, facts, loops, stack
        self.d, self.n, self.tries, self.mod = d, n, tries, mod

    @property
    def loc(self):
        return f"{self.mod.rel}:{getattr(self.node, 'lineno', '?')}"

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return f"<{self.kind} {self.fq} {self.loc} {self.d}>"


class State:
    __slots__ = ("vars", "heap", "attrs", "facts", "dead")

    def __init__(self):
        self.vars, self.heap, self.attrs, self.facts, self.dead = {}, {}, {}, (), False

    def copy(self):
        s = State()
        s.vars, s.heap, s.attrs = dict(self.vars), dict(self.heap), dict(self.attrs)
        s.facts, s.dead = self.facts, self.dead
        return s

    def take(self, o):
        self.vars, self.heap, self.attrs, self.facts, self.dead = o.vars, o.heap, o.attrs, o.facts, o.dead


class Frame:
    _n = 0

    def __init__(self, fq, mod, parent=None, fn=None, cls=None, selfname=None):
        Frame._n += 1
        self.id = Frame._n
        self.fq, self.mod, self.parent, self.fn, self.cls, self.selfname = fq, mod, parent, fn, cls, selfname
        self.returns, self.breaks, self.conts = [], [], []
        self.globals, self.nonlocals = set(), set()
        self.locals = None


class Loop:
    def __init__(self, lid, it, node, fq):
        self.id, self.iter, self.node, self.fq = lid, it, node, fq
        self.init, self.step, self.cond, self.exits = {}, {}, TRUE, []
        self.out = {}


class Clos:
    def __init__(self, node, frame, fn):
        self.node, self.frame, self.fn = node, frame, fn


class Result:
    def __init__(self, eng, ret, events, state, frame, params):
        self.eng, self.ret, self.events, self.state, self.frame, self.params = eng, ret, events, state, frame, params

    def var(self, name):
        return self.state.vars.get((self.frame.id, name))

    def evs(self, *kinds, **kw):
        for e in self.events:
            if kinds and e.kind not in kinds:
                continue
            if all(e.d.get(k) == v or getattr(e, k, None) == v for k, v in kw.items()):
                yield e


class Engine:
    def __init__(self, proj, opaque=(), depth=7, inline=None):
        self.unroll = ()
        self.p = proj
        self.opaque = set(opaque)
        self.maxdepth = depth
        self.inline_pred = inline
        self.events, self.silent = [], 0
        self.loops, self.closures, self.newinfo = {}, {}, {}
        self._uid, self.muinfo = {}, {}
        self.stack, self.loopstack, self.trystack = [], [], []
        self.modframes = {}
        self.evaluating = set()
        self.budget = 400000

    # ------------------------------------------------------------ entry points
    def run(self, fq, args=None, selft=None, st=None):
        """Analyse one function with its parameters as opaque terms (or the terms given)."""
        fn = self.p.fn(fq)
        st = st or State()
        saved, self.events = self.events, []
        fr = Frame(fq, fn.mod, fn=fn, cls=fn.cls)
        if fn.outer is not None:
            # nested function analysed on its own: free variables are opaque
            fr.parent = self._outer_frame(fn.outer, st)
        params = {}
        for i, p in enumerate(fn.all_params()):
            t = (args or {}).get(p)
            if t is None:
                t = mk("param", fq, p)
            if i == 0 and fn.cls is not None:
                fr.selfname = p
                t = selft or t
                self.newinfo[t] = ("self", fn.cls)
            params[p] = t
            st.vars[(fr.id, p)] = t
        self.stack.append(fq)
        ret = self._body(fn.node, fr, st)
        self.stack.pop()
        ev, self.events = self.events, saved
        return Result(self, ret, ev, st, fr, params)

    def _outer_frame(self, fn, st):
        fr = Frame(fn.fq, fn.mod, fn=fn, cls=fn.cls)
        if fn.outer is not None:
            fr.parent = self._outer_frame(fn.outer, st)
        names = set(fn.all_params())
        from .src import walk_own
        for n in walk_own(fn.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
        for p in names:
            st.vars[(fr.id, p)] = mk("param", fn.fq, p)
        self._outer_flags(fn, fr, st, walk_own)
        for n in walk_own(fn.node):
            if isinstance(n, ast.FunctionDef):
                self._def(n, fr, st)
        return fr

    def _outer_flags(self, fn, fr, st, walk_own):
        """Variables of the enclosing function which are set once, to a condition on (or an alias of) its parameters."""
        stores = {}
        for n in ast.walk(fn.node):
            if isinstance(n, (ast.Nonlocal, ast.Global)):
                for x in n.names:
                    stores[x] = 99
        for n in walk_own(fn.node):
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                stores[n.id] = stores.get(n.id, 0) + 1
        ok = {p for p in fn.all_params() if p not in stores}
        plain = (ast.Name, ast.Load, ast.Constant, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.IfExp, ast.cmpop, ast.boolop, ast.Not)
        for s in fn.node.body:
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and stores.get(s.targets[0].id) == 1):
                continue
            v = s.value
            if not all(isinstance(x, plain) for x in ast.walk(v)) or isinstance(v, ast.Constant):
                continue
            names = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}
            if not names & ok or not all(x in ok or x not in stores and x not in fn.all_params() and x in fn.mod.ns for x in names):
                continue
            self.silent += 1
            st.vars[(fr.id, s.targets[0].id)] = self.fz(v, fr, st)
            self.silent -= 1
            ok.add(s.targets[0].id)

    def module_state(self, name):
        """Evaluate a module's top level (assignments, tables) and return (frame, state)."""
        if name in self.modframes:
            return self.modframes[name]
        m = self.p.mods[name]
        fr, st = Frame(m.short or "__init__", m), State()
        fr.is_module = True
        self.modframes[name] = (fr, st, [])
        saved, self.events = self.events, []
        self.stack.append("<module>")
        lp, self.loopstack = self.loopstack, []
        self.block(m.tree.body, fr, st)
        self.loopstack = lp
        self.stack.pop()
        self.modframes[name] = (fr, st, self.events)
        self.events = saved
        return self.modframes[name]

    def global_value(self, t):
        """The value a module-level variable has after its module has been loaded."""
        mod = next((m for m in self.p.mods.values() if m.short == t.a[0]), None)
        if mod is None:
            return None
        fr, st, _ = self.module_state(mod.name)
        v = st.vars.get((fr.id, t.a[1]))
        return self.freeze(v, st) if v is not None else None

    # ------------------------------------------------------------ utilities
    def uid(self, node, frame, extra=""):
        k = (id(node), frame.id, extra, self.unroll)
        if k not in self._uid:
            self._uid[k] = len(self._uid) + 1
        return self._uid[k]

    def emit(self, kind, node, frame, st, **d):
        if st.dead:
            return
        if not self.silent:
            self.events.append(Event(kind, frame.fq, node, st.facts, tuple(self.loopstack), tuple(self.stack), d,
                                     len(self.events), tuple(self.trystack), frame.mod))

    def freeze(self, t, st):
        """Replace objects by their current contents.

        Objects created by the analysed code are replaced wherever they occur.  Objects known only by an access path
        (a parameter, an attribute) are replaced in reference positions only: inside a computed value the path already
        stands for the contents at the time of the computation."""
        for _ in range(6):
            if not st.heap:
                return t
            top = st.heap.get(t)
            if top is not None and t.op != "new" and contains(top, t):
                # contents defined in terms of the object's earlier contents
                return subst(top, {k: v for k, v in st.heap.items() if k.op == "new"})
            n = self._freeze1(t, st)
            if n is t:
                return t
            t = n
        return t

    def _freeze1(self, t, st):
        memo = {}
        news = {k: v for k, v in st.heap.items() if k.op == "new"}

        def ref(x):
            r = memo.get(x)
            if r is not None:
                return r
            v = st.heap.get(x)
            if v is not None:
                r = v if x.op == "new" or not contains(v, x) or x is t else x
            elif x.op in ("tup", "lst", "set", "dict", "phi", "star"):
                r = rebuild(x, ref)
            elif news and any(s in news for s in subterms(x)):
                r = subst(x, news)
            else:
                r = x
            memo[x] = r
            return r

        return ref(t)

    def new(self, kind, node, frame, st, content, extra=""):
        t = mk("new", kind, self.uid(node, frame, extra))
        self.newinfo.setdefault(t, (kind, node, frame.fq))
        st.heap[t] = content
        return t

    def content(self, t, st):
        return self.freeze(st.heap.get(t, t), st)

    # ------------------------------------------------------------ joins
    def merge2(self, c, a, b):
        s = State()
        for k in a.vars.keys() | b.vars.keys():
            s.vars[k] = phi(c, a.vars.get(k, UNDEF), b.vars.get(k, UNDEF))
        for k in a.heap.keys() | b.heap.keys():
            d = k if k.op != "new" else UNDEF
            va, vb = a.heap.get(k, d), b.heap.get(k, d)
            s.heap[k] = va if vb is UNDEF else vb if va is UNDEF else phi(c, va, vb)
        for k in a.attrs.keys() | b.attrs.keys():
            d = mk("attr", k[0], k[1])
            s.attrs[k] = phi(c, a.attrs.get(k, d), b.attrs.get(k, d))
        return s

    def join(self, states, base):
        """Join states by the conditions that separate them.  `base` facts hold on all of them."""
        live = [s for s in states if not s.dead]
        if not live:
            r = (states[0] if states else State()).copy()
            r.dead, r.facts = True, base
            return r
        if len(live) == 1:
            return live[0]
        s, complete = self._join(live, len(base))
        s.facts = base
        if not complete:
            f = OR(*[AND(*x.facts[len(base):]) for x in live])
            if f is not TRUE:
                s.facts = base + (f,)
        return s

    def _join(self, live, k):
        if len(live) == 1:
            return live[0], len(live[0].facts) == k
        lead = next((s for s in live if len(s.facts) > k), None)
        if lead is None:
            s = live[0]
            for o in live[1:]:
                s = self.merge2(mk("nd", len(self._uid) + id(o) % 1000), s, o)
            return s, True
        c = lead.facts[k]
        A = [s for s in live if len(s.facts) > k and s.facts[k] is c]
        B = [s for s in live if len(s.facts) > k and s.facts[k] is NOT(c)]
        O = [s for s in live if s not in A and s not in B]
        if not O and B:
            sa, ca = self._join(A, k + 1)
            sb, cb = self._join(B, k + 1)
            return self.merge2(c, sa, sb), ca and cb
        if not O:
            sa, _ = self._join(A, k + 1)
            return sa, False
        if len(A) == 1 and not B:
            cond = AND(*lead.facts[k:])
            so, co = self._join(O, k)
            return self.merge2(cond, lead, so), False
        if A and not B:
            sa, _ = self._join(A, k + 1)
            so, _ = self._join(O, k)
            return self.merge2(OR(*[AND(*x.facts[k:]) for x in A]), sa, so), False
        sa, _ = self._join(A + B, k)
        so, _ = self._join(O, k)
        cond = OR(*[AND(*x.facts[k:]) for x in A + B])
        return self.merge2(cond, sa, so), False

    # ------------------------------------------------------------ functions
    def _body(self, node, fr, st):
        base = st.facts
        sl, self.loopstack_saved = self.loopstack, None
        if isinstance(node, ast.Lambda):
            v = self.eval(node.body, fr, st)
            return v
        self.block(node.body, fr, st)
        if not st.dead:
            st.vars[(fr.id, "$ret")] = NONE
            fr.returns.append(st.copy())
        states = fr.returns
        r = self.join(states, base)
        st.take(r.copy())
        if st.dead:
            return mk("never")
        return st.vars.get((fr.id, "$ret"), NONE)

    def inline_ok(self, fn):
        if fn.fq in self.opaque or fn.is_gen or len(self.stack) > self.maxdepth or fn.fq in self.stack:
            return False
        if any(self._opaque_deco(d) for d in fn.decorators):
            return False
        if self.inline_pred is not None and not self.inline_pred(fn):
            return False
        return True

    @staticmethod
    def _opaque_deco(d):
        s = ast.unparse(d)
        s = s.split("(")[0].split(".")[-1]
        return s not in ("wraps", "property", "setter", "lru_cache", "staticmethod", "cache", "overload", "cached_property")

    def call_fn(self, fn, node, frame, st, args, kws, selft=None, clos=None):
        """Inline a package function / closure; args: list of terms (may contain star), kws: list of (name|None, term)."""
        fnode = clos.node if clos else fn.node
        fq = fn.fq if fn else "<lambda>"
        fr = Frame(fq, fn.mod if fn else frame.mod, parent=clos.frame if clos else None, fn=fn, cls=fn.cls if fn else None)
        if isinstance(fnode, ast.Lambda):
            fr.fq = frame.fq
            fr.cls = None
        a = fnode.args
        names = [x.arg for x in a.posonlyargs + a.args]
        pos = list(args)
        if selft is not None:
            pos = [selft] + pos
            fr.selfname = names[0] if names else None
            if fn and fn.cls:
                self.newinfo.setdefault(selft, ("self", fn.cls))
        bound = {}
        stars = []
        i = 0
        rest = []
        for j, t in enumerate(pos):
            if t.op == "star":
                stars = pos[j:]
                break
            if i < len(names):
                bound[names[i]] = t
                i += 1
            else:
                rest.append(t)
        if stars:
            s0 = stars[0].a[0]
            k = 0
            if a.vararg is None or i < len(names):
                while i < len(names) and names[i] not in [n for n, _ in kws]:
                    bound[names[i]] = idx(s0, const(k))
                    i += 1
                    k += 1
            if a.vararg is not None:
                if k:
                    sl = mk("slice", const(k), NONE, NONE)
                    rest = rest + [mk("star", idx(s0, sl))] + stars[1:]
                else:
                    rest = rest + stars
        if a.vararg is not None:
            if len(rest) == 1 and rest[0].op == "star":
                bound[a.vararg.arg] = rest[0].a[0]
            else:
                bound[a.vararg.arg] = mk("tup", *rest)
        kwn = names + [x.arg for x in a.kwonlyargs]
        extra = []
        dstar = []
        for n, t in kws:
            if n is None:
                dstar.append(t)
            elif n in kwn:
                bound[n] = t
            else:
                extra.append((const(n), t))
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        dfr = clos.frame if clos else None
        for n in kwn:
            if n not in bound:
                dv = None
                if n in defaults:
                    if dfr is None:
                        dfr = Frame(fq, fr.mod)
                    dv = self.eval(defaults[n], dfr, st)
                if dstar:
                    d0 = self.freeze(dstar[0], st)
                    bound[n] = self.dict_get(d0, const(n), dv if dv is not None else UNDEF)
                else:
                    bound[n] = dv if dv is not None else UNDEF
        if a.kwarg is not None:
            c = mk("dict", *extra)
            for d in dstar:
                d = self.freeze(d, st)
                c = d if not extra and len(dstar) == 1 else mk("dmerge", c, d)
            for n in kwn:
                if dstar and n in bound and not any(k == n for k, _ in kws):
                    c = self.dict_del(c, const(n))
            bound[a.kwarg.arg] = self.new("dict", fnode, fr, st, c, "kw")
        for n, t in bound.items():
            st.vars[(fr.id, n)] = t
        if isinstance(fnode, ast.Lambda):
            return self.eval(fnode.body, fr, st)
        self.stack.append(fq)
        base = st.facts
        ret = self._body(fnode, fr, st)
        self.stack.pop()
        if not isinstance(ret, type(NONE)):
            ret = NONE
        for k in [k for k in st.vars if k[0] == fr.id]:
            if not self._has_closure(fr):
                del st.vars[k]
        return ret

    def _has_closure(self, fr):
        return getattr(fr, "captured", False)

    # ------------------------------------------------------------ statements
    def block(self, body, fr, st):
        for s in body:
            if st.dead:
                return
            self.stmt(s, fr, st)

    def stmt(self, s, fr, st):
        self.budget -= 1
        if self.budget < 0:
            raise RuntimeError("analysis budget exceeded")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.emit("unknown_stmt", s, fr, st, what=type(s).__name__)
            return
        m(s, fr, st)

    def s_Pass(self, s, fr, st):
        pass

    def s_Expr(self, s, fr, st):
        v = s.value
        if isinstance(v, ast.BoolOp):
            # `a and f()` as a statement
            test = v.values[0] if len(v.values) == 2 else ast.copy_location(ast.BoolOp(v.op, v.values[:-1]), v)
            c = self.cond(test, fr, st)
            last = lambda x: self.eval(v.values[-1], fr, x)    # noqa: E731
            skip = lambda x: None    # noqa: E731
            self.branch(c, *((last, skip) if isinstance(v.op, ast.And) else (skip, last)), st, s)
            return
        self.eval(v, fr, st)

    def s_Global(self, s, fr, st):
        fr.globals.update(s.names)

    def s_Nonlocal(self, s, fr, st):
        fr.nonlocals.update(s.names)

    def s_Import(self, s, fr, st):
        for al in s.names:
            ns = {}
            self.p.bind_import(fr.mod, al, ns)
            self.emit("import", s, fr, st, name=al.name)
            for n, t in ns.items():
                st.vars[(fr.id, n)] = self.p.resolve(t)

    def s_ImportFrom(self, s, fr, st):
        ns = {}
        self.p.bind_from(fr.mod, s, ns)
        self.emit("import", s, fr, st, name=s.module or ".")
        for n, t in ns.items():
            st.vars[(fr.id, n)] = self.p.resolve(t)

    def s_FunctionDef(self, s, fr, st):
        if getattr(fr, "is_module", False):
            st.vars[(fr.id, s.name)] = self.p.resolve(fr.mod.ns.get(s.name, mk("func", "?")))
            return
        self._def(s, fr, st)

    s_AsyncFunctionDef = s_FunctionDef

    def _def(self, s, fr, st):
        f = next((x for x in self.p.fns.values() if x.node is s), None)
        t = mk("clos", self.uid(s, fr))
        self.closures[t] = Clos(s, fr, f)
        q = fr
        while q is not None:
            q.captured = True
            q = q.parent
        for d in reversed(s.decorator_list):
            if ast.unparse(d).split("(")[0].split(".")[-1] in ("wraps",):
                continue
            dv = self.eval(d, fr, st)
            t = callt(dv, (t,))
        st.vars[(fr.id, s.name)] = t

    def s_ClassDef(self, s, fr, st):
        if getattr(fr, "is_module", False):
            st.vars[(fr.id, s.name)] = self.p.resolve(fr.mod.ns[s.name])
        else:
            st.vars[(fr.id, s.name)] = mk("localclass", s.name)

    def s_Return(self, s, fr, st):
        v = self.eval(s.value, fr, st) if s.value is not None else NONE
        if st.dead:
            return
        self.emit("return", s, fr, st, value=self.freeze(v, st), raw=v)
        st.vars[(fr.id, "$ret")] = v
        fr.returns.append(st.copy())
        st.dead = True

    def s_Raise(self, s, fr, st):
        v = self.eval(s.exc, fr, st) if s.exc is not None else mk("reraise")
        self.emit("raise", s, fr, st, exc=self.freeze(v, st))
        st.dead = True

    def s_Assert(self, s, fr, st):
        c = self.cond(s.test, fr, st)
        self.emit("assert", s, fr, st, cond=c)
        st.facts = st.facts + (c,)

    def s_Delete(self, s, fr, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.vars.pop((fr.id, t.id), None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr, st)
                k = self.eval_slice(t.slice, fr, st)
                self.mutate(t, fr, st, o, "delitem", (k,))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr, st)
                self.emit("delattr", t, fr, st, obj=o, name=t.attr)

    def s_Assign(self, s, fr, st):
        v = self.eval(s.value, fr, st)
        for t in s.targets:
            self.assign(t, v, fr, st)

    def s_AnnAssign(self, s, fr, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr, st), fr, st)

    def s_AugAssign(self, s, fr, st):
        op = BINOPS[type(s.op)]
        if isinstance(s.target, ast.Name):
            cur = self.name(s.target.id, fr, st)
            v = self.eval(s.value, fr, st)
            kind = self.kind(cur, st)
            if kind in ("list", "set", "dict", "deque", "Counter"):
                meth = {"+": "extend", "|": "update", "-": "difference_update", "&": "intersection_update"}.get(op)
                self.mutate(s, fr, st, cur, meth or "aug" + op, (v,))
                return
            self.emit("augassign", s, fr, st, obj=cur, op=op, value=self.freeze(v, st))
            self.assign(s.target, binop(op, self.freeze(cur, st), self.freeze(v, st)), fr, st)
        elif isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value, fr, st)
            cur = self.getattr(o, s.target.attr, s, fr, st)
            v = self.eval(s.value, fr, st)
            self.setattr(o, s.target.attr, binop(op, self.freeze(cur, st), self.freeze(v, st)), s, fr, st, aug=True)
        elif isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value, fr, st)
            k = self.eval_slice(s.target.slice, fr, st)
            cur = idx(self.content(o, st), k)
            v = self.eval(s.value, fr, st)
            self.mutate(s, fr, st, o, "setitem", (k, binop(op, cur, self.freeze(v, st))), aug=True)

    def assign(self, t, v, fr, st):
        if isinstance(t, ast.Name):
            if t.id in fr.globals or getattr(fr, "is_module", False):
                mfr, mst, _ = self.module_state(fr.mod.name) if t.id in fr.globals else (fr, st, None)
                if t.id in fr.globals:
                    g = mk("gvar", fr.mod.short, t.id)
                    self.emit("setglobal", t, fr, st, name=t.id, gvar=g, value=self.freeze(v, st))
                    st.vars[("g", fr.mod.short, t.id)] = v
                    return
            q = fr
            if t.id in fr.nonlocals:
                q = fr.parent
                while q is not None and (q.id, t.id) not in st.vars:
                    q = q.parent
                q = q or fr
            st.vars[(q.id, t.id)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr, st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr, st)
            self.setattr(o, t.attr, v, t, fr, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr, st)
            k = self.eval_slice(t.slice, fr, st)
            self.mutate(t, fr, st, o, "setitem", (k, v))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, st)

    def unpack(self, elts, v, fr, st):
        v = st.heap.get(v, v) if v.op == "new" else v
        n = len(elts)
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        for i, e in enumerate(elts):
            if star is None or i < star:
                x = idx(v, const(i))
            elif i == star:
                if v.op in ("tup", "lst") and not any(y.op == "star" for y in v.a):
                    x = mk("lst", *v.a[i:len(v.a) - (n - 1 - i)])
                else:
                    x = idx(v, mk("slice", const(i), const(-(n - 1 - i)) if n - 1 - i else NONE, NONE))
            else:
                x = idx(v, const(i - n))
            self.assign(e, self.tidy(x, st), fr, st)

    def tidy(self, x, st):
        return x

    def setattr(self, o, name, v, node, fr, st, aug=False):
        cls = self.clsof(o)
        if cls is not None:
            setter = self._find_setter(cls, name)
            if setter is not None and self.inline_ok(setter):
                self.emit("setprop", node, fr, st, obj=o, name=name, value=self.freeze(v, st))
                self.call_fn(setter, node, fr, st, [v], [], selft=o)
                return
        self.emit("setattr", node, fr, st, obj=o, name=name, value=self.freeze(v, st), raw=v, aug=aug)
        st.attrs[(o, name)] = v

    def _find_setter(self, cls, name):
        st = [cls]
        while st:
            c = st.pop(0)
            if name in c.setters:
                return c.setters[name]
            st = c.bases + st
        return None

    def clsof(self, o):
        inf = self.newinfo.get(o)
        if inf is not None and inf[0] == "self":
            return inf[1]
        if o.op == "new" and o.a[0].startswith("obj:"):
            return self.p.classes.get(o.a[0][4:])
        return None

    def kind(self, t, st):
        if t.op == "new":
            return t.a[0]
        if t.op == "phi":
            a, b = self.kind(t.a[1], st), self.kind(t.a[2], st)
            return a if a == b else None
        return None

    # --- control flow
    def s_If(self, s, fr, st):
        c = self.cond(s.test, fr, st)
        self.branch(c, lambda x: self.block(s.body, fr, x), lambda x: self.block(s.orelse, fr, x), st, s)

    def known(self, c, st):
        if c in (TRUE, FALSE):
            return c
        for f in st.facts:
            if f is c:
                return TRUE
            if f is NOT(c):
                return FALSE
            if f.op == "and" and c in f.a:
                return TRUE
            if f.op == "and" and NOT(c) in f.a:
                return FALSE
        return c

    def branch(self, c, fa, fb, st, node=None):
        k = self.known(c, st)
        base = st.facts
        if k is TRUE:
            fa(st)
            return
        if k is FALSE:
            fb(st)
            return
        a, b = st.copy(), st.copy()
        a.facts, b.facts = base + (c,), base + (NOT(c),)
        fa(a)
        fb(b)
        st.take(self.join([a, b], base).copy())

    def s_IfExp_value(self, e, fr, st):
        c = self.known(self.cond(e.test, fr, st), st)
        if c is TRUE:
            return self.eval(e.body, fr, st)
        if c is FALSE:
            return self.eval(e.orelse, fr, st)
        base = st.facts
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in EFFECTS for x in (e.body, e.orelse) for n in ast.walk(x)):
            got = []
            self.branch(c, lambda x: got.append(self.eval(e.body, fr, x)), lambda x: got.append(self.eval(e.orelse, fr, x)), st, e)
            return phi(c, *got) if len(got) == 2 else got[0]
        st.facts = base + (c,)
        a = self.eval(e.body, fr, st)
        st.facts = base + (NOT(c),)
        b = self.eval(e.orelse, fr, st)
        st.facts = base
        return phi(c, a, b)

    def s_Try(self, s, fr, st):
        base = st.facts
        tid = self.uid(s, fr, "try")
        info = (tid, [self._hname(h, fr) for h in s.handlers], bool(s.finalbody), s)
        b = st.copy()
        lit = None
        if s.handlers:
            lit = self._memo_lit(s, fr, st)
        if lit is None:
            lit = NOT(mk("exc", tid))
        if s.handlers:
            b.facts = base + (lit,)
        self.trystack.append(info)
        self.block(s.body, fr, b)
        if not b.dead:
            self.block(s.orelse, fr, b)
        self.trystack.pop()
        states = [b]
        for h in s.handlers:
            x = st.copy()
            # effects of the body may have partly happened; the rules never rely on them
            hn = self._hname(h, fr)
            hl = NOT(lit) if len(s.handlers) == 1 else AND(NOT(lit), mk("excis", tid, hn))
            x.facts = base + (NOT(lit),) if len(s.handlers) == 1 else base + (NOT(lit), mk("excis", tid, hn))
            if h.name:
                x.vars[(fr.id, h.name)] = mk("excval", tid, hn)
            self.trystack.append((tid, [], bool(s.finalbody), s))
            self.emit("handler", h, fr, x, exc=hn, tid=tid)
            self.block(h.body, fr, x)
            self.trystack.pop()
            states.append(x)
        # a dead body that cannot fall through leaves the handlers' states
        j = self.join(states, base)
        st.take(j.copy())
        if s.finalbody:
            dead = st.dead
            f = st
            if dead:
                f = (fr.returns[-1] if fr.returns else st).copy()
                f.dead = False
            self.trystack.append((tid, ["finally"], False, s))
            self.block(s.finalbody, fr, f)
            self.trystack.pop()
            if dead:
                st.dead = True

    s_TryStar = s_Try

    def _hname(self, h, fr):
        if h.type is None:
            return "*"
        return ast.unparse(h.type)

    def _memo_lit(self, s, fr, st):
        """try: ... D[k] ... except KeyError: the handler runs iff k is not in D."""
        if len(s.handlers) != 1 or s.handlers[0].type is None or ast.unparse(s.handlers[0].type) != "KeyError":
            return None
        subs = [n for b in s.body[:1] for n in ast.walk(b) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load)]
        if len(s.body) != 1 or len(subs) != 1:
            return None
        self.silent += 1
        x = st.copy()
        d = self.freeze(self.eval(subs[0].value, fr, x), x)
        k = self.freeze(self.eval_slice(subs[0].slice, fr, x), x)
        self.silent -= 1
        return cmp("in", k, d)

    def s_With(self, s, fr, st):
        for it in s.items:
            v = self.eval(it.context_expr, fr, st)
            self.emit("with", s, fr, st, ctx=self.freeze(v, st))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mk("enter", v), fr, st)
        self.block(s.body, fr, st)

    def s_Break(self, s, fr, st):
        fr.breaks[-1].append(st.copy())
        st.dead = True

    def s_Continue(self, s, fr, st):
        fr.conts[-1].append(st.copy())
        st.dead = True

    def s_For(self, s, fr, st):
        it = self.freeze(self.eval(s.iter, fr, st), st)
        if it.op in ("tup", "lst") and 0 < len(it.a) <= 4 and not any(x.op == "star" for x in it.a) and not s.orelse and not any(
                isinstance(n, (ast.Break, ast.Continue)) for b in s.body for n in ast.walk(b)):
            # a loop over a few listed values: one copy of the body per value
            old = self.unroll
            for n, x in enumerate(it.a):
                if st.dead:
                    break
                self.unroll = old + ((id(s), n),)
                self.assign(s.target, x, fr, st)
                self.block(s.body, fr, st)
            self.unroll = old
            return
        self.loop(s, it, fr, st, lambda x: self.assign(s.target, self.elem_of(it, x), fr, x), lambda x: self.block(s.body, fr, x), orelse=s.orelse)

    def s_While(self, s, fr, st):
        lid = f"L{self.uid(s, fr, 'loop')}"
        it = mk("while", lid)

        def head(x):
            c = self.cond(s.test, fr, x)
            self.loops[lid].headcond = c
            if c is not TRUE:
                x.facts = x.facts + (c,)

        self.loop(s, it, fr, st, head, lambda x: self.block(s.body, fr, x), while_test=s.test, orelse=s.orelse)

    def loop(self, node, it, fr, st, head, body, while_test=None, orelse=None):
        lid = f"L{self.uid(node, fr, 'loop')}"
        lp = self.loops[lid] = Loop(lid, it, node, fr.fq)
        base = st.facts
        entry = st.copy()

        def once(mus):
            x = entry.copy()
            for kind, k in mus:
                getattr(x, kind)[k] = self.mu(lid, kind, k)
            fr.breaks.append([])
            fr.conts.append([])
            nret = len(fr.returns)
            self.loopstack.append((lid, it))
            head(x)
            hb = x.facts
            body(x)
            self.loopstack.pop()
            conts, brks = fr.conts.pop(), fr.breaks.pop()
            rets = fr.returns[nret:]
            del fr.returns[nret:]
            end = self.join([x] + conts, base)
            return end, brks, rets, hb

        def diff(end, mus):
            out = set(mus)
            if end.dead:
                return out
            for kind in ("vars", "heap", "attrs"):
                cur, old = getattr(end, kind), getattr(entry, kind)
                for k, v in cur.items():
                    o = old.get(k)
                    if (kind, k) in out:
                        continue
                    if o is None:
                        if kind == "heap" and k.op == "new":
                            continue
                        o = {"vars": None, "heap": k if kind == "heap" else None,
                             "attrs": mk("attr", *k) if kind == "attrs" else None}[kind]
                    if o is not v and o is not None:
                        out.add((kind, k))
            return out

        mus = set()
        self.silent += 1
        for _ in range(4):
            end, brks, rets, hb = once(mus)
            d = diff(end, mus)
            for b in brks:
                d = diff(b, d)
            if d == mus:
                break
            mus = d
        self.silent -= 1
        end, brks, rets, hb = once(mus)
        # ---- summarise
        x = entry.copy()
        step = {}
        for kind, k in mus:
            m = self.mu(lid, kind, k)
            step[(kind, k)] = getattr(end, kind).get(k, m) if not end.dead else m
            lp.step[m] = step[(kind, k)]
            ini = getattr(entry, kind).get(k)
            if ini is None:
                ini = k if kind == "heap" else mk("attr", *k) if kind == "attrs" else UNDEF
            lp.init[m] = ini
        tk = {}
        for (kind, k) in mus:
            m = self.mu(lid, kind, k)
            s_ = step[(kind, k)]
            if kind == "heap" and s_.op == "popped" and s_.a[0] is m and not contains(s_.a[1], m):
                ini = self.freeze(lp.init[m], entry)
                tk[mk("idx", m, s_.a[1])] = mk("take", ini, s_.a[1])
                self.emit("popseq", node, fr, entry, obj=k, positions=it, each=s_.a[1], content=ini)
        for (kind, k) in mus:
            m = self.mu(lid, kind, k)
            s_ = step[(kind, k)]
            out = self.fold(lp, m, lp.init[m], s_, it, tk, entry, bool(brks))
            getattr(x, kind)[k] = out
            lp.out[m] = out
        if not end.dead:
            for k, v in end.vars.items():
                if k not in x.vars:
                    x.vars[k] = v if v.op in ("clos", "func") else mk("out", lid, str(k[-1]), v)
            for k, v in end.heap.items():
                if k not in x.heap:
                    x.heap[k] = v
            for k, v in end.attrs.items():
                if k not in x.attrs:
                    x.attrs[k] = mk("out", lid, k[1], v)
        nb = len(base)
        lp.exits = [AND(*b.facts[nb:]) for b in brks] + [AND(*b.facts[nb:]) for b in rets]
        x.facts = base
        if not end.dead and while_test is None:
            done = AND(*end.facts[nb:])
            if done is not TRUE:
                f = NOT(ANY(subst(NOT(done), tk), it))
                x.facts = base + (f,)
        elif end.dead and not brks and while_test is None:
            x.facts = base + (NOT(mk("nonempty", it)),)
        if while_test is not None:
            mp = {m: lp.out[m] for m in lp.out}
            hc = getattr(lp, "headcond", TRUE)
            if hc is TRUE and not brks:
                x.dead = True
            elif not brks and hc is not TRUE:
                x.facts = base + (NOT(subst(hc, mp)),)
        escapes = []
        for r in rets:
            r = r.copy()
            r.facts = base + (ANY(subst(AND(*r.facts[nb:]), tk), it),)
            fr.returns.append(r)
        if orelse and not x.dead:
            # the else clause runs only if no break was taken
            if brks:
                x.facts = base + tuple(NOT(ANY(subst(AND(*b.facts[nb:]), tk), it)) for b in brks)
            self.block(orelse, fr, x)
        outs = [x] if not x.dead else []
        for b in brks:
            b = b.copy()
            cond = ANY(subst(AND(*b.facts[nb:]), tk), it)
            b.facts = base + (cond,)
            outs.append(b)
        if brks:
            if not x.dead:
                x.facts = base
            st.take(self.join(outs, base).copy())
        else:
            st.take(x)

    def mu(self, lid, kind, k):
        if kind == "vars":
            name, tag = str(k[-1]), f"v{k[0]}"
        elif kind == "attrs":
            name, tag = str(k[1]), f"a{k[0].n}"
        else:
            name, tag = "obj", f"h{k.n}"
        m = mk("mu", lid, name, tag)
        self.muinfo[m] = (kind, k)
        return m

    def fold(self, lp, m, init, step, it, tk, entry, brk):
        if step is m:
            return init
        opaque = mk("out", lp.id, m.a[1], step)
        if brk:
            return opaque
        cond, s = TRUE, step
        n = 0
        while s.op == "phi" and n < 8:
            n += 1
            if s.a[2] is m:
                cond, s = AND(cond, s.a[0]), s.a[1]
            elif s.a[1] is m:
                cond, s = AND(cond, NOT(s.a[0])), s.a[2]
            else:
                break
        frz = self.freeze(init, entry)

        def clean(v):
            return not contains(v, lambda u: u.op == "mu" and u.a[0] == lp.id)

        if s.op == "append" and s.a[0] is m:
            x, c = subst(s.a[1], tk), subst(cond, tk)
            if clean(x) and clean(c):
                comp = self.comp("list", x, (it,), c)
                return comp if frz is mk("lst") else ADD(frz, comp)
            return mk("out", lp.id, m.a[1], step)
        if s.op == "added" and s.a[0] is m:
            x, c = subst(s.a[1], tk), subst(cond, tk)
            if clean(x) and clean(c):
                comp = self.comp("set", x, (it,), c)
                return comp if frz is mk("set") else UNION(frz, comp)
        if s.op == "setitem" and s.a[0] is m:
            x, c = subst(mk("tup", s.a[1], s.a[2]), tk), subst(cond, tk)
            if clean(x) and clean(c):
                comp = self.comp("dict", x, (it,), c)
                return comp if frz is mk("dict") else mk("dmerge", frz, comp)
        if s.op == "popped" and s.a[0] is m and cond is TRUE:
            return mk("dropall", frz, it, s.a[1])
        if s.op == "union" and m in s.a:
            x = [subst(y, tk) for y in s.a if y is not m]
            if all(clean(y) for y in x) and clean(cond):
                # union over all iterations of the other operands
                els = [self.comp("gen", y.a[0] if False else y, (it,), cond) for y in x if y.op != "star"]
                sts = [mk("star", mk("flat", y.a[0], it, cond)) for y in x if y.op == "star"]
                return UNION(frz, *[mk("star", e) for e in els], *sts)
        if s.op == "add" and m in s.a:
            rest = [y for y in s.a if y is not m]
            if all(clean(y) for y in rest) and clean(cond) and s.a.count(m) == 1:
                if s.a[0] is m:
                    return mk("fold", "+", frz, ADD(*rest), it, cond)
        if s.op == "bin" and s.a[0] in ("*", "&", "|", "-", "^") and m in (s.a[1], s.a[2]):
            o = s.a[2] if s.a[1] is m else s.a[1]
            if clean(o) and clean(cond) and (s.a[1] is m or s.a[0] in ("*", "&", "^")):
                return mk("fold", s.a[0], frz, o, it, cond)
        if is_call(s, "builtins.max", "builtins.min") and len(s.a[1]) == 2 and m in s.a[1] and not s.a[2]:
            o = s.a[1][1] if s.a[1][0] is m else s.a[1][0]
            if clean(o) and clean(cond):
                return mk("fold", s.a[0].a[0], frz, o, it, cond)
        return opaque

    # ------------------------------------------------------------ expressions
    def cond(self, e, fr, st):
        if isinstance(e, ast.BoolOp):
            base = st.facts
            out = []
            for v in e.values:
                c = self.cond(v, fr, st)
                out.append(c)
                st.facts = st.facts + ((c,) if isinstance(e.op, ast.And) else (NOT(c),))
            st.facts = base
            return AND(*out) if isinstance(e.op, ast.And) else OR(*out)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return NOT(self.cond(e.operand, fr, st))
        if isinstance(e, ast.IfExp):
            c = self.cond(e.test, fr, st)
            return phi(c, self.cond(e.body, fr, st), self.cond(e.orelse, fr, st))
        if isinstance(e, ast.NamedExpr):
            v = self.eval(e, fr, st)
            return truth(self.freeze(v, st))
        return self.truth(self.eval(e, fr, st), st)

    def truth(self, t, st):
        return truth(self.freeze(t, st))

    def eval(self, e, fr, st):
        self.budget -= 1
        if self.budget < 0:
            raise RuntimeError("analysis budget exceeded")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return mk("unk", type(e).__name__, self.uid(e, fr))
        return m(e, fr, st)

    def fz(self, e, fr, st):
        return self.freeze(self.eval(e, fr, st), st)

    def e_Constant(self, e, fr, st):
        return const(e.value) if e.value is not Ellipsis else mk("ellipsis")

    def e_Name(self, e, fr, st):
        return self.name(e.id, fr, st)

    def name(self, n, fr, st):
        q = fr
        if n not in fr.globals:
            while q is not None:
                v = st.vars.get((q.id, n))
                if v is not None:
                    return v
                q = q.parent
        v = st.vars.get(("g", fr.mod.short, n))
        if v is not None:
            return v
        t = fr.mod.ns.get(n)
        if t is not None:
            t = self.p.resolve(t)
            if t.op == "gvar":
                return self.gvar(t, fr)
            return t
        if hasattr(builtins, n):
            return ext("builtins." + n)
        return mk("free", n)

    def gvar(self, t, fr):
        return t

    def e_NamedExpr(self, e, fr, st):
        v = self.eval(e.value, fr, st)
        q = fr
        while getattr(q, "is_comp", False):
            q = q.parent
        self.assign(e.target, v, q, st)
        return v

    def e_Tuple(self, e, fr, st):
        return mk("tup", *self.elts(e.elts, fr, st))

    def elts(self, es, fr, st):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.star(self.fz(x.value, fr, st)))
            else:
                out.append(self.eval(x, fr, st))
        return out

    def star(self, v):
        if v.op in ("tup", "lst"):
            return list(v.a)
        if v.op == "add" and any(x.op in ("tup", "lst") for x in v.a):
            out = []
            for x in v.a:
                out.extend(x.a if x.op in ("tup", "lst") else [mk("star", x)])
            return out
        if is_call(v, "builtins.list", "builtins.tuple", "builtins.iter") and len(v.a[1]) == 1:
            return self.star(v.a[1][0])
        return [mk("star", v)]

    def e_List(self, e, fr, st):
        return self.new("list", e, fr, st, mk("lst", *self.elts(e.elts, fr, st)))

    def e_Set(self, e, fr, st):
        return self.new("set", e, fr, st, mk("set", *self.elts(e.elts, fr, st)))

    def e_Dict(self, e, fr, st):
        items = []
        merged = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.fz(v, fr, st)
                merged = mk("dmerge", merged if merged is not None else mk("dict", *items), d)
                items = []
            else:
                items.append((self.fz(k, fr, st), self.eval(v, fr, st)))
        c = mk("dict", *items)
        if merged is not None:
            c = mk("dmerge", merged, c) if items else merged
        return self.new("dict", e, fr, st, c)

    def e_JoinedStr(self, e, fr, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.fz(v.value, fr, st)
                parts.append(x if v.format_spec is None else mk("fmt", x, ast.unparse(v.format_spec)))
            else:
                parts.append(const(v.value))
        if not parts:
            return const("")
        return ADD(*parts)

    def e_BinOp(self, e, fr, st):
        a, b = self.fz(e.left, fr, st), self.fz(e.right, fr, st)
        op = BINOPS[type(e.op)]
        r = binop(op, a, b)
        if op == "+" and (a.op in ("lst", "comp") or b.op in ("lst", "comp")):
            return self.new("list", e, fr, st, r)
        return r

    def e_UnaryOp(self, e, fr, st):
        if isinstance(e.op, ast.Not):
            return NOT(self.cond(e.operand, fr, st))
        v = self.fz(e.operand, fr, st)
        if isinstance(e.op, ast.USub):
            if v.op == "const" and isinstance(cval(v), (int, float)):
                return const(-cval(v))
            return mk("neg", v)
        return mk("un", type(e.op).__name__, v)

    def e_BoolOp(self, e, fr, st):
        base = st.facts
        vals, conds = [], []
        for v in e.values:
            t = self.eval(v, fr, st)
            vals.append(t)
            c = self.truth(t, st)
            conds.append(c)
            st.facts = st.facts + ((c,) if isinstance(e.op, ast.And) else (NOT(c),))
        st.facts = base
        r = vals[-1]
        for t, c in zip(reversed(vals[:-1]), reversed(conds[:-1])):
            r = phi(c, r, t) if isinstance(e.op, ast.And) else phi(c, t, r)
        return r

    def e_Compare(self, e, fr, st):
        raw = self.eval(e.left, fr, st)
        left = self.freeze(raw, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            rraw = self.eval(r, fr, st)
            right = self.freeze(rraw, st)
            if isinstance(op, (ast.Is, ast.IsNot)) and right is NONE and raw.op in ("param", "attr") and raw in st.heap:
                # which object it is does not depend on its contents
                out.append(cmp(CMPS[type(op)], raw, right))
            else:
                out.append(cmp(CMPS[type(op)], left, right))
            raw, left = rraw, right
        return AND(*out)

    def e_IfExp(self, e, fr, st):
        return self.s_IfExp_value(e, fr, st)

    def e_Lambda(self, e, fr, st):
        t = mk("clos", self.uid(e, fr))
        self.closures[t] = Clos(e, fr, None)
        q = fr
        while q is not None:
            q.captured = True
            q = q.parent
        return t

    def e_Starred(self, e, fr, st):
        return mk("star", self.fz(e.value, fr, st))

    def e_Yield(self, e, fr, st):
        v = self.eval(e.value, fr, st) if e.value is not None else NONE
        self.emit("yield", e, fr, st, value=self.freeze(v, st), raw=v)
        return mk("sent", self.uid(e, fr))

    def e_YieldFrom(self, e, fr, st):
        v = self.fz(e.value, fr, st)
        self.emit("yieldfrom", e, fr, st, value=v)
        return mk("sent", self.uid(e, fr))

    def e_Await(self, e, fr, st):
        return self.eval(e.value, fr, st)

    def e_Subscript(self, e, fr, st):
        o = self.eval(e.value, fr, st)
        k = self.eval_slice(e.slice, fr, st)
        c = self.content(o, st)
        self.emit("getitem", e, fr, st, obj=o, content=c, key=k)
        return self.subscript(c, k, o)

    def subscript(self, c, k, o=None):
        if k.op == "slice":
            lo, hi, sp = k.a
            if sp is NONE and (lo is NONE or is_const(lo, 0)) and hi is NONE:
                return c
            if c.op in ("tup", "lst") and not any(x.op == "star" for x in c.a) and all(
                    x is NONE or (x.op == "const" and isinstance(cval(x), int)) for x in k.a):
                return mk(c.op, *c.a[slice(*[cval(x) for x in k.a])])
            if c.op == "add" and c.a[0].op in ("tup", "lst") and is_const(lo, len(c.a[0].a)) and hi is NONE and sp is NONE:
                return ADD(*c.a[1:])
        if c.op == "add" and k.op == "const" and isinstance(cval(k), int) and c.a[0].op in ("tup", "lst") and 0 <= cval(k) < len(
                c.a[0].a):
            return c.a[0].a[cval(k)]
        return idx(c, k)

    def eval_slice(self, s, fr, st):
        if isinstance(s, ast.Slice):
            return mk("slice", *[self.fz(x, fr, st) if x is not None else NONE for x in (s.lower, s.upper, s.step)])
        return self.fz(s, fr, st)

    def e_Attribute(self, e, fr, st):
        o = self.eval(e.value, fr, st)
        return self.getattr(o, e.attr, e, fr, st)

    def getattr(self, o, name, node, fr, st):
        if o.op == "mod":
            t = self.p.modattr(o, name)
            return self.gvar(t, fr) if t.op == "gvar" else t
        if o.op == "ext":
            return ext(o.a[0] + "." + name)
        v = st.attrs.get((o, name))
        if v is not None:
            return v
        cls = self.clsof(o)
        if cls is not None:
            f = self.p.find_method(cls, name)
            if f is not None and f.name in f.cls.props and f.cls.props[f.name] is f and self.inline_ok(f):
                return self.call_fn(f, node, fr, st, [], [], selft=o)
        return mk("attr", o, name)

    # --- comprehensions
    def e_ListComp(self, e, fr, st):
        return self.new("list", e, fr, st, self.comprehension("list", e, fr, st))

    def e_SetComp(self, e, fr, st):
        return self.new("set", e, fr, st, self.comprehension("set", e, fr, st))

    def e_GeneratorExp(self, e, fr, st):
        return self.comprehension("gen", e, fr, st)

    def e_DictComp(self, e, fr, st):
        return self.new("dict", e, fr, st, self.comprehension("dict", e, fr, st))

    def comp(self, kind, elt, iters, cond):
        if kind in ("list", "gen", "tuple") and cond is TRUE and len(iters) == 1 and elt is mk("elem", iters[0], 0):
            return iters[0] if kind != "tuple" else callt(ext("builtins.tuple"), (iters[0],))
        return mk("comp", kind, elt, tuple(iters), cond)

    def comprehension(self, kind, e, fr, st):
        cf = Frame(fr.fq, fr.mod, parent=fr, fn=fr.fn, cls=fr.cls)
        cf.is_comp = True
        iters, conds = [], []

        def rec(i, x):
            if i == len(e.generators):
                if kind == "dict":
                    v = mk("tup", self.fz(e.key, cf, x), self.eval(e.value, cf, x))
                else:
                    v = self.eval(e.elt, cf, x)
                return v
            g = e.generators[i]
            it = self.freeze(self.eval(g.iter, cf, x), x)
            iters.append(it)
            self.loopstack.append((f"C{self.uid(g, cf)}", it))
            try:
                self.assign(g.target, self.elem_of(it, x), cf, x)
                for c in g.ifs:
                    cc = self.cond(c, cf, x)
                    conds.append(cc)
                    x.facts = x.facts + (cc,)
                return rec(i + 1, x)
            finally:
                self.loopstack.pop()

        base = st.facts
        probe = st.copy()
        self.silent += 1
        v = rec(0, probe)
        self.silent -= 1
        changed = [k for k, c in probe.heap.items() if st.heap.get(k, k) is not c and not (k.op == "new" and k not in st.heap)]
        iters.clear()
        conds.clear()
        if not changed:
            x = st.copy()
            v = rec(0, x)
            v = self.freeze(v, x)
            for k, c in x.heap.items():
                st.heap.setdefault(k, c)
            for k, c in x.vars.items():
                if k not in st.vars or st.vars[k] is not c:
                    if k[0] != cf.id:
                        st.vars[k] = c
            st.attrs = x.attrs
            if not x.dead and x.facts[:len(base)] == base:
                done = AND(*[f for f in x.facts[len(base):] if f not in conds])
                if done is not TRUE:
                    # an element whose evaluation raises ends the whole comprehension
                    st.facts = st.facts + (NOT(ANY(AND(*conds, NOT(done)), *iters)),)
            return self.comp(kind, v, iters, AND(*conds))
        # effects inside: summarise like a loop over the first generator
        it0 = self.freeze(self.eval(e.generators[0].iter, fr, st), st)
        acc = self.new("list", e, cf, st, mk("lst"), "acc")

        def body(x):
            iters.clear()
            conds.clear()
            y = rec(0, x)
            c = AND(*conds)
            cur = x.heap[acc]
            val = self.freeze(y, x)
            x.heap[acc] = phi(c, mk("append", cur, val), cur) if c is not TRUE else mk("append", cur, val)
            x.facts = base

        self.loop(e, it0, cf, st, lambda x: None, body)
        out = st.heap.get(acc, mk("lst"))
        if out.op == "comp" and kind != "list":
            out = mk("comp", kind, *out.a[1:])
        return out

    def elem_of(self, it, st=None):
        if it.op == "call" and it.a[0].op == "ext":
            n, args = it.a[0].a[0], it.a[1]
            if n == "builtins.enumerate" and args and args[0].op != "star":
                p = self.pos(args[0])
                start = args[1] if len(args) > 1 else dict(it.a[2]).get("start")
                if start is not None and not is_const(start, 0):
                    p = ADD(p, start)
                return mk("tup", p, self.elem_of(args[0], st))
            if n == "builtins.zip" and args and not any(a.op == "star" for a in args):
                return mk("tup", *[self.elem_of(a, st) for a in args])
            if n == "builtins.range" and len(args) == 1 and is_call(args[0], "builtins.len"):
                return self.pos(args[0].a[1][0])
            if n in ("builtins.iter", "builtins.list", "builtins.tuple") and len(args) == 1 and args[0].op != "star":
                return self.elem_of(args[0], st)
            if n == "builtins.map" and len(args) == 2:
                pass
        r = mcall(it, "items", "keys", "values")
        if r is not None and not it.a[1]:
            k = mk("elem", r, 0)
            n = it.a[0].a[1]
            return mk("tup", k, idx(r, k)) if n == "items" else k if n == "keys" else idx(r, k)
        if it.op == "comp" and it.a[0] in ("list", "gen", "tuple"):
            if it.a[3] is TRUE:
                return it.a[1]
            if st is not None:
                st.facts = st.facts + (it.a[3],)
                return it.a[1]
        return mk("elem", it, 0)

    def pos(self, seq):
        if is_call(seq, "builtins.list", "builtins.tuple") and len(seq.a[1]) == 1:
            return self.pos(seq.a[1][0])
        if seq.op == "comp" and seq.a[3] is TRUE and len(seq.a[2]) == 1:
            return self.pos(seq.a[2][0])
        return mk("pos", seq)

    # ------------------------------------------------------------ mutation
    def mutate(self, node, fr, st, o, op, args, **kw):
        if op == "update" and self.kind(o, st) != "set" and len(args) <= 1:
            # d.update({k: v}) / d.update(k=v) is the sequence of its assignments
            lit = self.freeze(args[0], st) if args else mk("dict")
            kws = kw.get("kws", ())
            if lit.op == "dict" and all(k.op == "const" for k, _ in lit.a) and all(n for n, _ in kws) and (lit.a or kws):
                raw = st.heap.get(args[0], args[0]) if args else lit
                items = raw.a if raw.op == "dict" else lit.a
                for k, v in tuple(items) + tuple((const(n), v) for n, v in kws):
                    self.mutate(node, fr, st, o, "setitem", (k, v))
                return NONE
        cur = self.content(o, st)
        fa = tuple(self.freeze(a, st) for a in args)
        self.emit("mutate", node, fr, st, obj=o, op=op, args=fa, raw=tuple(args), before=cur, **kw)
        val = NONE
        raw0 = st.heap.get(o, o)
        if op == "append":
            new = mk("lst", *(raw0.a + (args[0],))) if raw0.op == "lst" else mk("append", raw0, args[0])
        elif op in ("extend", "aug+"):
            new = ADD(cur, fa[0])
        elif op == "add":
            new = mk("set", *(cur.a + (fa[0],))) if cur.op == "set" else mk("added", raw0, fa[0])
        elif op in ("discard", "remove"):
            new = mk("discarded", raw0, fa[0])
        elif op == "pop":
            if len(args) == 2 or (len(args) == 1 and (self.kind(o, st) in ("dict",) or (
                    fa[0].op == "const" and isinstance(cval(fa[0]), str)))):
                val = self.dict_get(cur, fa[0], fa[1] if len(args) == 2 else UNDEF)
                new = self.dict_del(cur, fa[0])
            else:
                k = fa[0] if args else const(-1)
                val = idx(raw0, k) if raw0.op in ("mu", "lst", "tup") else self.subscript(cur, k)
                if cur.op == "lst" and k.op == "const" and cval(k) in (-1, 0) and cur.a and not any(
                        x.op == "star" for x in cur.a):
                    l2 = list(cur.a)
                    l2.pop(cval(k))
                    new = mk("lst", *l2)
                else:
                    new = mk("popped", raw0, k)
        elif op == "popleft":
            val = idx(cur, const(0))
            new = mk("popped", raw0, const(0))
        elif op in ("delitem", "__delitem__"):
            new = self.dict_del(cur, fa[0]) if cur.op in ("dict", "setitem", "dictdel", "dmerge") else mk("popped", raw0, fa[0])
        elif op in ("setitem", "__setitem__"):
            if cur.op == "dict" and fa[0].op == "const" and all(k.op == "const" for k, _ in cur.a):
                new = mk("dict", *([(k, v) for k, v in cur.a if k is not fa[0]] + [(fa[0], args[1])]))
            else:
                new = mk("setitem", raw0, fa[0], args[1])
        elif op == "update":
            if self.kind(o, st) == "set":
                new = UNION(cur, *[mk("elems", a) for a in fa])
            elif self.kind(o, st) == "dict" and fa:
                new = mk("dmerge", cur, fa[0])
            else:
                new = mk("updated", raw0, fa)
        elif op == "difference_update":
            new = binop("-", cur, fa[0])
        elif op == "intersection_update":
            new = binop("&", cur, fa[0])
        elif op == "clear":
            new = mk("cleared", raw0)
        elif op == "sort":
            new = callt(ext("builtins.sorted"), (cur,), tuple(kw.get("kws", ())))
        elif op == "setdefault":
            val = self.dict_get(cur, fa[0], fa[1] if len(fa) > 1 else NONE)
            new = mk("setitem", raw0, fa[0], val)
        elif op == "insert":
            new = mk("inserted", raw0, fa[0], args[1]) if len(args) == 2 else mk("opq", raw0)
        else:
            new = mk("mutated", op, raw0, fa)
            val = mk("mres", op, cur, fa)
        st.heap[o] = new
        return val

    def dict_get(self, d, k, dflt):
        if d.op == "dict" and k.op == "const" and all(x.op == "const" for x, _ in d.a):
            for x, v in d.a:
                if x is k:
                    return v
            return dflt
        if d.op == "dictdel" and d.a[1].op == "const" and k.op == "const":
            if d.a[1] is k:
                return dflt
            return self.dict_get(d.a[0], k, dflt)
        if d.op == "setitem" and d.a[1].op == "const" and k.op == "const":
            if d.a[1] is k:
                return d.a[2]
            return self.dict_get(d.a[0], k, dflt)
        if d.op == "dmerge" and d.a[1].op == "dict" and k.op == "const" and all(x.op == "const" for x, _ in d.a[1].a):
            for x, v in d.a[1].a:
                if x is k:
                    return v
            return self.dict_get(d.a[0], k, dflt)
        if d.op == "phi":
            return phi(d.a[0], self.dict_get(d.a[1], k, dflt), self.dict_get(d.a[2], k, dflt))
        return mk("get", d, k, dflt)

    def dict_del(self, d, k):
        if d.op == "dict" and k.op == "const" and all(x.op == "const" for x, _ in d.a):
            return mk("dict", *[(x, v) for x, v in d.a if x is not k])
        return mk("dictdel", d, k)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, fr, st):
        # super().m(...)
        f = e.func
        recv = None
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                args, kws = self.args(e, fr, st)
                q = fr
                while q is not None and q.cls is None:
                    q = q.parent
                if q is not None:
                    selft = st.vars.get((q.id, q.selfname))
                    for b in q.cls.bases:
                        m = self.p.find_method(b, f.attr)
                        if m is not None and selft is not None and self.inline_ok(m):
                            return self.call_fn(m, e, fr, st, args, kws, selft=selft)
                self.emit("supercall", e, fr, st, name=f.attr, args=[self.freeze(a, st) for a in args], kws=[(k, self.freeze(v, st)) for k, v in kws])
                return mk("supercall", f.attr)
            recv = self.eval(f.value, fr, st)
            callee = self.getattr(recv, f.attr, f, fr, st)
        else:
            callee = self.eval(f, fr, st)
        args, kws = self.args(e, fr, st)
        if recv is not None and recv.op not in ("mod", "ext", "func", "class"):
            r = self.method(e, recv, f.attr, args, kws, fr, st)
            if r is not None:
                return r
        return self.apply(e, callee, args, kws, fr, st, recv=recv)

    def args(self, e, fr, st):
        out, kws = [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr, st)
                fz = self.freeze(v, st)
                xs = self.star(fz)
                if len(xs) == 1 and xs[0].op == "star":
                    out.append(mk("star", v))
                else:
                    out.extend(xs)
            else:
                out.append(self.eval(a, fr, st))
        for k in e.keywords:
            v = self.eval(k.value, fr, st)
            if k.arg is None:
                d = self.freeze(v, st)
                if d.op == "dict" and all(x.op == "const" for x, _ in d.a):
                    kws.extend((cval(x), y) for x, y in d.a)
                else:
                    kws.append((None, v))
            else:
                kws.append((k.arg, v))
        return out, kws

    def method(self, e, recv, name, args, kws, fr, st):
        """Method call on a value (not a module).  Returns None when it should be treated as an ordinary call."""
        cls = self.clsof(recv)
        if cls is not None:
            m = self.p.find_method(cls, name)
            if m is not None:
                if self.inline_ok(m):
                    return self.call_fn(m, e, fr, st, args, kws, selft=recv)
                fa = tuple(self.freeze(a, st) for a in args)
                fk = tuple((k, self.freeze(v, st)) for k, v in kws)
                t = callt(mk("attr", recv, name), fa, fk)
                self.emit("call", e, fr, st, callee=mk("func", m.fq), args=fa, kws=fk, recv=recv, name=name, term=t,
                          rawargs=tuple(args), rawkws=tuple(kws))
                self.escape(e, mk("func", m.fq), args, kws, fr, st, bound=True)
                return t
            if (recv, name) in st.attrs:
                return None
        c = self.content(recv, st)
        fa = tuple(self.freeze(a, st) for a in args)
        if name in MUTATORS and not (name == "pop" and cls is not None) and not (name in ("put", "partition", "fill", "resize") and c.op == "const"):
            if name in ("partition",) and (c.op in ("const", "add") or args and args[0].op == "const" and isinstance(cval(args[0]), str)):
                return None
            return self.mutate(e, fr, st, recv, name, tuple(args), kws=tuple(kws))
        if not kws:
            if name == "union" and True:
                if recv.op in ("ext", "class"):
                    return None
                return UNION(c, *fa)
            if name == "intersection" and len(fa) == 1 and fa[0].op != "star":
                return binop("&", c, fa[0])
            if name == "difference" and len(fa) == 1 and fa[0].op != "star":
                return binop("-", c, fa[0])
            if name == "isdisjoint" and len(fa) == 1:
                return NOT(truth(binop("&", c, fa[0])))
            if name == "issubset" and len(fa) == 1:
                return NOT(truth(binop("-", c, fa[0])))
            if name == "issuperset" and len(fa) == 1:
                return NOT(truth(binop("-", fa[0], c)))
            if name == "copy" and not fa:
                k = self.kind(recv, st) or "list"
                return self.new(k, e, fr, st, c)
            if name == "__getitem__" and len(fa) == 1:
                return self.subscript(c, fa[0])
            if name == "__contains__" and len(fa) == 1:
                return cmp("in", fa[0], c)
            if name == "get" and fa:
                return self.dict_get(c, fa[0], fa[1] if len(fa) > 1 else NONE)
            if name == "join" and len(fa) == 1:
                x = fa[0]
                if x.op in ("tup", "lst") and x.a and not any(y.op == "star" for y in x.a):
                    parts = []
                    for i, y in enumerate(x.a):
                        if i:
                            parts.append(c)
                        parts.append(y)
                    return ADD(*parts)
                return mk("join", c, self.as_seq(x))
            if name == "format" and c.op == "const" and isinstance(cval(c), str) and cval(c).count("{}") == len(fa) and all(
                    y.op != "star" for y in fa):
                bits = cval(c).split("{}")
                parts = [const(bits[0])]
                for y, b in zip(fa, bits[1:]):
                    parts += [y, const(b)]
                return ADD(*parts)
            if name in ("lower", "upper") and c.op == "const" and isinstance(cval(c), str) and not fa:
                return const(getattr(cval(c), name)())
        if name == "split":
            t = callt(mk("attr", c, "split"), fa, ())
            return self.new("list", e, fr, st, t)
        return None

    def as_seq(self, x):
        if is_call(x, "builtins.list", "builtins.tuple", "builtins.iter") and len(x.a[1]) == 1 and x.a[1][0].op != "star":
            return self.as_seq(x.a[1][0])
        if x.op == "comp" and x.a[0] in ("list", "tuple"):
            return mk("comp", "gen", *x.a[1:])
        return x

    def apply(self, e, callee, args, kws, fr, st, recv=None):
        fa = tuple(self.freeze(a, st) for a in args)
        fk = tuple((k, self.freeze(v, st)) for k, v in kws)
        c = callee
        if c.op == "new":
            c = st.heap.get(c, c)
        if c.op == "clos":
            cl = self.closures[c]
            fq = cl.fn.fq if cl.fn else None
            rec = fq is not None and fq in self.stack
            isgen = cl.fn is not None and cl.fn.is_gen
            if not rec and not isgen and len(self.stack) <= self.maxdepth and (fq not in self.opaque):
                return self.call_fn(cl.fn, e, fr, st, args, kws, clos=cl)
            t = callt(c, fa, fk)
            self.emit("call", e, fr, st, callee=mk("func", fq) if fq else c, args=fa, kws=fk, recv=None, name=fq, term=t,
                      rawargs=tuple(args), rawkws=tuple(kws), recursive=rec)
            return t
        if c.op == "func":
            fn = self.p.fns.get(c.a[0])
            if fn is not None and self.inline_ok(fn):
                return self.call_fn(fn, e, fr, st, args, kws)
        if is_call(c, "functools.partial") and c.a[1]:
            return self.apply(e, c.a[1][0], list(c.a[1][1:]) + args, list(c.a[2]) + kws, fr, st)
        if c.op == "phi":
            # call through a gated callee
            if all(x.op in ("clos", "func") or is_call(x, "functools.partial") for x in c.a[1:]):
                base = st.facts
                out = []

                def go(x, f):
                    out.append(self.apply(e, f, args, kws, fr, x))
                a, b = st.copy(), st.copy()
                a.facts, b.facts = base + (c.a[0],), base + (NOT(c.a[0]),)
                go(a, c.a[1])
                go(b, c.a[2])
                st.take(self.join([a, b], base).copy())
                return phi(c.a[0], out[0], out[1])
        if c.op == "attr" and recv is None:
            # a bound method stored in a variable
            r = self.method(e, c.a[0], c.a[1], args, kws, fr, st)
            if r is not None:
                return r
        if c.op == "attr" and is_const(c.a[0]) and isinstance(cval(c.a[0]), str):
            pass
        if self.clsof(c) is not None:
            m = self.p.find_method(self.clsof(c), "__call__")
            if m is not None:
                if self.inline_ok(m):
                    return self.call_fn(m, e, fr, st, args, kws, selft=c)
                t = callt(c, fa, fk)
                self.emit("call", e, fr, st, callee=mk("func", m.fq), args=fa, kws=fk, recv=c, name="__call__", term=t,
                          rawargs=tuple(args), rawkws=tuple(kws))
                return t
        if c.op == "ext":
            r = self.builtin(e, c.a[0], args, kws, fa, fk, fr, st)
            if r is not None:
                return r
        t = callt(c, fa, fk)
        self.emit("call", e, fr, st, callee=c, args=fa, kws=fk, recv=recv, name=c.a[1] if c.op == "attr" else None, term=t,
                  rawargs=tuple(args), rawkws=tuple(kws))
        self.escape(e, c, args, kws, fr, st)
        if c.op == "ext" and c.a[0] in PURE_NEW:
            return self.new(c.a[0].split(".")[-1], e, fr, st, t)
        if c.op == "class" and c.a[0] in self.p.classes:
            o = mk("new", "obj:" + c.a[0], self.uid(e, fr))
            st.heap[o] = t
            self.newinfo[o] = ("self", self.p.classes[c.a[0]])
            init = self.p.find_method(self.p.classes[c.a[0]], "__init__")
            if init is not None and self.inline_ok(init) and getattr(self, "inline_init", False):
                self.call_fn(init, e, fr, st, args, kws, selft=o)
            return o
        return t

    def escape(self, e, c, args, kws, fr, st, bound=False):
        """Objects handed to a callee that may modify them lose their known contents."""
        hit = []
        if c.op == "ext":
            for i in ARG_MUTATORS.get(c.a[0], ()):
                if i < len(args):
                    hit.append(args[i])
        elif c.op == "func" and c.a[0] in self.p.fns:
            fn = self.p.fns[c.a[0]]
            ps = fn.params()[1:] if bound else fn.params()
            m = mutated_params(self.p, fn.fq)
            for i, x in enumerate(args):
                if x.op == "star":
                    break
                if i < len(ps) and ps[i] in m:
                    hit.append(x)
            for k, v in kws:
                if k in m:
                    hit.append(v)
        elif c.op in ("class",) or (c.op == "attr" and c.a[0].op in ("const", "add", "join")):
            return
        else:
            hit = [x for x in args if x.op == "new"] + [v for _, v in kws if v.op == "new"]
            hit = [x for x in hit if x.a[0] in ("list", "set", "dict", "deque", "defaultdict", "Counter")]
            for x in hit:
                st.heap[x] = mk("esc", st.heap.get(x, x), self.uid(e, fr, "esc"))
            return
        for x in hit:
            self.emit("escape", e, fr, st, obj=x, callee=c, by=c.a[0])
            for y in _alts(x):
                st.heap[y] = mk("esc", st.heap.get(y, y), self.uid(e, fr, "esc"))

    def builtin(self, e, n, args, kws, fa, fk, fr, st):
        short = n[9:] if n.startswith("builtins.") else None
        if short in ("list", "set", "dict", "frozenset", "tuple", "sorted", "iter") and any(a.op == "star" for a in fa):
            return None
        if short == "list":
            if not fa:
                return self.new("list", e, fr, st, mk("lst"))
            x = fa[0]
            if x.op == "tup":
                x = mk("lst", *x.a)
            elif x.op == "comp" and x.a[0] in ("gen", "tuple"):
                x = mk("comp", "list", *x.a[1:])
            return self.new("list", e, fr, st, x)
        if short == "tuple":
            if not fa:
                return mk("tup")
            x = fa[0]
            if x.op in ("tup", "lst"):
                return mk("tup", *x.a)
            if x.op == "comp" and x.a[0] in ("gen", "list"):
                return mk("comp", "tuple", *x.a[1:])
            if is_call(x, "builtins.tuple"):
                return x
            return callt(ext(n), (x,))
        if short == "set":
            if not fa:
                return self.new("set", e, fr, st, mk("set"))
            x = fa[0]
            if x.op == "comp" and x.a[0] in ("gen", "list"):
                x = mk("comp", "set", *x.a[1:])
                return self.new("set", e, fr, st, x)
            if x.op in ("tup", "lst"):
                return self.new("set", e, fr, st, mk("set", *x.a))
            return self.new("set", e, fr, st, callt(ext(n), (x,)))
        if short == "frozenset":
            if not fa:
                return mk("set")
            x = fa[0]
            if x.op == "comp" and x.a[0] in ("gen", "list"):
                return mk("comp", "set", *x.a[1:])
            if x.op in ("tup", "lst"):
                return mk("set", *x.a)
            return callt(ext(n), (x,))
        if short == "dict":
            if not fa and not any(k is None for k, _ in fk):
                return self.new("dict", e, fr, st, mk("dict", *[(const(k), v) for k, v in kws]))
            if len(fa) == 1 and not fk:
                x = fa[0]
                if x.op == "comp":
                    x = mk("comp", "dict", *x.a[1:])
                return self.new("dict", e, fr, st, x)
            return None
        if short == "sorted":
            self.emit("call", e, fr, st, callee=ext(n), args=fa, kws=fk, recv=None, name=None, term=callt(ext(n), fa, fk),
                      rawargs=tuple(args), rawkws=tuple(kws))
            fk2 = tuple((k, v) for k, v in fk if not (k == "reverse" and v is FALSE) and not (k == "key" and v is NONE))
            return self.new("list", e, fr, st, callt(ext(n), fa, fk2))
        if short == "bool" and len(fa) == 1:
            return truth(fa[0])
        if short == "len" and len(fa) == 1:
            x = fa[0]
            if x.op in ("tup", "lst") and not any(y.op == "star" for y in x.a):
                return const(len(x.a))
            if is_call(x, "builtins.list", "builtins.tuple", "builtins.sorted") and len(x.a[1]) == 1:
                x = x.a[1][0]
            if x.op == "comp" and x.a[0] in ("list", "tuple") and x.a[3] is TRUE and len(x.a[2]) == 1:
                x = x.a[2][0]
                if is_call(x, "builtins.list", "builtins.tuple", "builtins.sorted") and len(x.a[1]) == 1:
                    x = x.a[1][0]
                if is_call(x, "builtins.enumerate"):
                    x = x.a[1][0]
            return callt(ext(n), (x,))
        if short in ("any", "all") and len(fa) == 1:
            x = fa[0]
            if x.op == "comp":
                c = truth(x.a[1])
                if short == "any":
                    return ANY(AND(x.a[3], c), *x.a[2])
                return NOT(ANY(AND(x.a[3], NOT(c)), *x.a[2]))
            if x.op in ("tup", "lst"):
                return (OR if short == "any" else AND)(*[truth(y) for y in x.a])
            return ANY(truth(mk("elem", x, 0)), x) if short == "any" else NOT(ANY(NOT(truth(mk("elem", x, 0))), x))
        if short == "map" and len(args) == 2 and args[1].op != "star":
            it = fa[1]
            self.silent += 1
            x = st.copy()
            v = self.apply(e, args[0], [self.elem_of(it, x)], [], fr, x)
            self.silent -= 1
            self.loopstack.append((f"C{self.uid(e, fr)}", it))
            y = st.copy()
            v = self.apply(e, args[0], [self.elem_of(it, y)], [], fr, y)
            v = self.freeze(v, y)
            self.loopstack.pop()
            for k, c in y.heap.items():
                st.heap.setdefault(k, c)
            return self.comp("gen", v, (it,), TRUE)
        if short == "filter" and len(args) == 2:
            it = fa[1]
            el = self.elem_of(it)
            c = truth(el) if args[0] is NONE else truth(self.apply(e, args[0], [el], [], fr, st))
            return self.comp("gen", el, (it,), c)
        if short == "getattr" and len(fa) >= 2 and fa[1].op == "const" and isinstance(cval(fa[1]), str):
            if len(fa) == 2:
                return self.getattr(args[0], cval(fa[1]), e, fr, st)
            v = st.attrs.get((args[0], cval(fa[1])))
            if v is not None:
                return v
            return mk("getattr", args[0], cval(fa[1]), fa[2])
        if short == "setattr" and len(fa) == 3 and fa[1].op == "const":
            self.setattr(args[0], cval(fa[1]), args[2], e, fr, st)
            return NONE
        if short == "next" and args:
            self.emit("next", e, fr, st, obj=args[0], content=fa[0])
            k = self.uid(e, fr, "next")
            return mk("next", fa[0], k)
        if n in ("time.time", "time.monotonic", "time.perf_counter", "time.process_time"):
            k = self.uid(e, fr, "clock")
            v = mk("clock", n, k)
            self.emit("clock", e, fr, st, term=v)
            return v
        if n in ("builtins.frozenset.union", "builtins.set.union") and fa:
            return UNION(*fa)
        if n in ("builtins.frozenset.intersection", "builtins.set.intersection") and len(fa) == 2 and fa[1].op != "star":
            return binop("&", fa[0], fa[1])
        if n in ("builtins.frozenset.difference", "builtins.set.difference") and len(fa) == 2 and fa[1].op != "star":
            return binop("-", fa[0], fa[1])
        if n == "functools.reduce" and len(args) >= 2:
            it = fa[1]
            acc, el = mk("acc", self.uid(e, fr)), self.elem_of(it)
            op = fa[0]
            opn = {"operator.mul": "*", "operator.add": "+", "operator.or_": "|", "operator.and_": "&"}.get(
                op.a[0] if op.op == "ext" else None)
            if opn is None:
                v = self.apply(e, args[0], [acc, el], [], fr, st)
                if v.op == "union" and acc in v.a:
                    rest = [y for y in v.a if y is not acc]
                    init = [fa[2]] if len(fa) > 2 else []
                    return UNION(*init, *[mk("star", self.comp("gen", y, (it,), TRUE)) for y in rest])
                if v.op == "bin" and acc in v.a:
                    o = v.a[2] if v.a[1] is acc else v.a[1]
                    return mk("fold", v.a[0], fa[2] if len(fa) > 2 else NONE, o, it, TRUE)
                return mk("reduce", fa[0], it, fa[2] if len(fa) > 2 else NONE, v, acc)
            if opn == "|":
                init = [fa[2]] if len(fa) > 2 else []
                return UNION(*init, mk("star", it))
            return mk("fold", opn, fa[2] if len(fa) > 2 else NONE, el, it, TRUE)
        if n.startswith("operator.") and len(fa) == 2:
            o = {"or_": "|", "and_": "&", "sub": "-", "add": "+", "mul": "*", "xor": "^"}.get(n[9:])
            if o:
                return binop(o, *fa)
            o = {"eq": "eq", "ne": "ne", "lt": "lt", "le": "le", "gt": "gt", "ge": "ge", "is_": "is", "is_not": "isnot"}.get(n[9:])
            if o:
                return cmp(o, *fa)
            if n == "operator.contains":
                return cmp("in", fa[1], fa[0])
            if n == "operator.getitem":
                return self.subscript(*fa)
        if short == "int" and len(fa) == 1 and fa[0].op == "const" and isinstance(cval(fa[0]), (int, bool)):
            return const(int(cval(fa[0])))
        if short == "float" and len(fa) == 1 and fa[0].op == "const":
            try:
                return const(float(cval(fa[0])))
            except (TypeError, ValueError):
                return None
        if short == "str" and len(fa) == 1:
            return fa[0] if fa[0].op == "const" and isinstance(cval(fa[0]), str) else None
        if short == "isinstance" and len(fa) == 2:
            return mk("isinstance", fa[0], fa[1])
        if short == "hasattr" and len(fa) == 2 and fa[1].op == "const":
            return mk("hasattr", args[0], cval(fa[1]))
        return None
