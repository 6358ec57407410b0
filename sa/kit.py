"""Obligations, verdicts, evidence and the decision procedures shared by the rules.

Verdict policy.  Every rule produces obligations.  `ok`: the rule is established on the source.  `bad`: the source
definitely contradicts it (exit 1).  `unk`: the construct left the fragment the rule understands; it is reported in
the evidence and never raised as an alarm.  A check whose public anchors are gone, or which ends with no decided
obligation at all, exits 2 (no verdict).
"""
import ast
import itertools
import json
import os
import time
import traceback

from .engine import Engine, is_call, mcall
from .src import AnalysisBroken, Project
from .terms import NONE, TRUE, FALSE, T, const, contains, cval, is_const, kids, mk, show, subterms

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Undecided(Exception):
    """The construct is outside the fragment a rule decides."""


class Ctx:
    def __init__(self, pid, tier="quick", proj=None):
        self.pid, self.tier = pid, tier
        self.p = proj or Project()
        self.obs, self.fnset, self.callsites, self.rules = [], set(), 0, []
        self.cache = {}

    # -------------------------------------------------------------- verdicts
    def _add(self, v, rule, construct, where, msg):
        self.obs.append(dict(verdict=v, rule=rule, construct=construct, where=where, detail=msg))

    def ok(self, rule, construct, where="", msg=""):
        self._add("holds", rule, construct, where, msg)

    def bad(self, rule, construct, where="", msg=""):
        self._add("violated", rule, construct, where, msg)

    def unk(self, rule, construct, where="", msg=""):
        self._add("undecided", rule, construct, where, msg)

    def put(self, v, rule, construct, where="", msg=""):
        """v: True (holds) / False (violated) / None (undecided)."""
        (self.ok if v is True else self.bad if v is False else self.unk)(rule, construct, where, "" if v is True else msg)

    # -------------------------------------------------------------- running the engine
    def has(self, fq):
        return fq in self.p.fns

    def run(self, fq, public=False, opaque=(), args=None, selft=None, depth=7, inline=None, keyx=None, init=False):
        if fq not in self.p.fns:
            if public:
                raise AnalysisBroken(f"public function {fq} is missing")
            raise Undecided(f"function {fq} is not in the source")
        k = (fq, tuple(sorted(opaque)), None if not args else tuple(sorted((a, b.n) for a, b in args.items())),
             selft, depth, keyx, init)
        if k not in self.cache:
            e = Engine(self.p, opaque=opaque, depth=depth, inline=inline)
            e.inline_init = init
            r = e.run(fq, args=args, selft=selft)
            self.cache[k] = r
            for ev in r.events:
                self.fnset.add(ev.fq)
                if ev.kind == "call":
                    self.callsites += 1
            self.fnset.add(fq)
        return self.cache[k]

    def rule(self, name, fn):
        """Run one rule; an analysis failure inside it is an undecided obligation, not an alarm."""
        self.rules.append(name)
        n = len(self.obs)
        try:
            fn(self)
        except AnalysisBroken:
            raise
        except Undecided as e:
            self.unk(name, "analysis", "", str(e))
        except RecursionError:
            self.unk(name, "analysis", "", "term too deep")
        except Exception as e:  # noqa: BLE001  (a rule that cannot read the code gives no verdict)
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.unk(name, "analysis", "", f"{type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}")
        if len(self.obs) == n:
            self.unk(name, "analysis", "", "the rule found no construct to judge")


# ------------------------------------------------------------------ decision procedures
def collect_atoms(t, atom):
    out = {}
    for s in subterms(t, stop=lambda x: atom(x) is not None):
        a = atom(s)
        if a is not None:
            out[s] = a
    return out


def truth_of(c, env, leaf):
    """Evaluate a boolean term; leaf(term, env) gives atoms (True/False) or None."""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    v = leaf(c, env)
    if v is not None:
        return v
    if c.op == "not":
        return not truth_of(c.a[0], env, leaf)
    if c.op == "and":
        r = True
        unk = None
        for x in c.a:
            try:
                if not truth_of(x, env, leaf):
                    return False
            except Undecided as e:
                unk = e
        if unk:
            raise unk
        return r
    if c.op == "or":
        unk = None
        for x in c.a:
            try:
                if truth_of(x, env, leaf):
                    return True
            except Undecided as e:
                unk = e
        if unk:
            raise unk
        return False
    if c.op == "phi":
        try:
            s = truth_of(c.a[0], env, leaf)
        except Undecided:
            x, y = truth_of(c.a[1], env, leaf), truth_of(c.a[2], env, leaf)
            if x == y:
                return x
            raise
        return truth_of(c.a[1] if s else c.a[2], env, leaf)
    if c.op == "const":
        return bool(cval(c))
    raise Undecided("condition " + show(c, 5))


SETLIKE = ("builtins.set", "builtins.frozenset", "builtins.list", "builtins.tuple", "builtins.sorted", "builtins.iter",
           "builtins.reversed")


def member(t, env, atom):
    """Membership of one arbitrary index in the set denoted by t, given the membership of the atoms."""
    a = atom(t)
    if a is not None:
        return a(env) if callable(a) else env[a]
    if t.op == "union":
        unk = None
        for x in t.a:
            try:
                if member(x, env, atom):
                    return True
            except Undecided as e:
                unk = e
        if unk:
            raise unk
        return False
    if t.op == "star":
        return member(t.a[0], env, atom)
    if t.op == "elems":
        return member(t.a[0], env, atom)
    if t.op == "bin":
        op, x, y = t.a
        f = {"&": lambda p, q: p and q, "-": lambda p, q: p and not q, "^": lambda p, q: p != q, "|": lambda p, q: p or q}.get(op)
        if f:
            return f(member(x, env, atom), member(y, env, atom))
    if is_call(t, *SETLIKE) and len(t.a[1]) == 1 and t.a[1][0].op != "star":
        return member(t.a[1][0], env, atom)
    if t.op == "join" or (t.op == "add"):
        xs = [x for x in (t.a if t.op == "add" else t.a[1:])]
        return any(member(x, env, atom) for x in xs)
    if t.op in ("set", "tup", "lst") and all(x.op == "star" for x in t.a):
        return any([member(x, env, atom) for x in t.a])
    if t.op == "const" and cval(t) == "":
        return False
    if t.op == "comp" and t.a[0] in ("set", "gen", "list", "tuple") and len(t.a[2]) == 1:
        it = t.a[2][0]
        e = mk("elem", it, 0)
        if t.a[1] is e:
            if not member(it, env, atom):
                return False
            return truth_of(t.a[3], env, lambda c, v: _in_leaf(c, v, e, atom))
    if t.op == "phi":
        try:
            c = truth_of(t.a[0], env, lambda c, v: _nonempty_leaf(c, v, atom))
        except Undecided:
            x, y = member(t.a[1], env, atom), member(t.a[2], env, atom)
            if x == y:
                return x
            raise
        return member(t.a[1] if c else t.a[2], env, atom)
    raise Undecided("set " + show(t, 6))


def _in_leaf(c, env, e, atom):
    if c.op == "cmp" and c.a[0] == "in" and c.a[1] is e:
        return member(c.a[2], env, atom)
    if c.op == "cmp" and c.a[0] == "in":
        return None
    return None


def _nonempty_leaf(c, env, atom):
    a = atom(mk("truth", c))
    if a is not None:
        return a(env) if callable(a) else env[a]
    return None


def decide_set(t, names, atom, spec, valid=lambda e: True):
    """('ok', None) / ('bad', env): does membership in t equal spec(env) for every valid assignment of the atoms?"""
    for vals in itertools.product((False, True), repeat=len(names)):
        env = dict(zip(names, vals))
        if not valid(env):
            continue
        if bool(member(t, env, atom)) != bool(spec(env)):
            return "bad", env
    return "ok", None


def decide_bool(t, names, leaf, spec, valid=lambda e: True, domain=(False, True)):
    doms = [domain] * len(names) if not isinstance(domain, dict) else [domain[n] for n in names]
    for vals in itertools.product(*doms):
        env = dict(zip(names, vals))
        if not valid(env):
            continue
        if bool(truth_of(t, env, leaf)) != bool(spec(env)):
            return "bad", env
    return "ok", None


def fmt_env(env):
    return ", ".join(f"{k}={'yes' if v is True else 'no' if v is False else v}" for k, v in env.items())


# ------------------------------------------------------------------ term helpers
def strip(t, *names):
    """Look through order/type conversions that keep the elements."""
    names = names or SETLIKE
    while is_call(t, *names) and len(t.a[1]) == 1 and t.a[1][0].op != "star":
        t = t.a[1][0]
    return t


def phis(t, cond=TRUE):
    """The alternatives of a gated value: [(list of literals, value)]."""
    out = []

    def go(x, lits):
        if x.op == "phi":
            go(x.a[1], lits + [(x.a[0], True)])
            go(x.a[2], lits + [(x.a[0], False)])
        else:
            out.append((lits, x))

    go(t, [])
    return out


def root(t):
    """The object a value is a part of (through subscripts, attributes, iteration)."""
    while t.op in ("idx", "attr", "elem", "take", "enter", "star", "next") and isinstance(t.a[0], T):
        t = t.a[0]
    return t


def kw(ev, name, default=None):
    for k, v in ev.kws:
        if k == name:
            return v
    return default


# ------------------------------------------------------------------ running a property
def load_known():
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                line = line.strip()
                if line and not line.startswith("#"):
                    out.append(json.loads(line))
    return out


def finish(ctx, desc, t0, out_dir=None):
    known = [k for k in load_known() if k.get("status") == "known" and k["property"] == ctx.pid]
    kmap = {(k["rule"], k["construct"]): k for k in known}
    bad, kf = [], []
    for o in ctx.obs:
        if o["verdict"] != "violated":
            continue
        k = kmap.get((o["rule"], o["construct"]))
        (kf if k else bad).append((o, k))
    for o, k in kf:
        print(f"KNOWN-FINDING: property={ctx.pid} {k['what']}")
    n = {v: sum(o["verdict"] == v for o in ctx.obs) for v in ("holds", "violated", "undecided")}
    out_dir = out_dir or os.path.join(VERIF, "evidence")
    os.makedirs(out_dir, exist_ok=True)
    replay = os.path.join(out_dir, f"{ctx.pid}.violation.txt")
    if os.path.exists(replay):
        os.unlink(replay)
    if bad:
        with open(replay, "w") as fh:
            for o, _ in bad:
                fh.write(f"{o['rule']}: {o['construct']} at {o['where']}\n    {o['detail']}\n")
    ev = {
        "property": ctx.pid,
        "tier": ctx.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": desc,
            "functions_analysed": sorted(ctx.fnset),
            "call_sites": ctx.callsites,
            "rules": ctx.rules,
            "obligations": len(ctx.obs),
            "discharged": n["holds"],
            "undecided": [o for o in ctx.obs if o["verdict"] == "undecided"],
            "details": [o for o in ctx.obs if o["verdict"] != "undecided"],
            "known_findings": [k["what"] for _, k in kf],
        },
        "wall_s": round(time.time() - t0, 3),
        "assumptions": [
            "CPython semantics of the built-in containers; third-party array functions behave as documented",
            "the package is only entered through its public functions and classes",
        ],
        "violations": [f"{o['rule']}: {o['construct']} at {o['where']}: {o['detail']}" for o, _ in bad],
    }
    with open(os.path.join(out_dir, f"{ctx.pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for o, _ in bad:
        print(f"  {o['rule']}: {o['construct']} at {o['where']}: {o['detail']}")
    print(f"{ctx.pid}: {n['holds']} obligations hold, {n['violated']} violated ({len(kf)} known), {n['undecided']} undecided; "
          f"{len(ctx.fnset)} functions, {ctx.callsites} call sites")
    if bad:
        print(f"VIOLATION property={ctx.pid} replay={replay}")
        return 1
    if n["holds"] + len(kf) == 0:
        print(f"{ctx.pid}: nothing could be decided")
        return 2
    return 0


def numeval(t, val):
    v = val(t)
    if v is not None:
        return v
    if t.op == "const" and isinstance(cval(t), (int, float)):
        return cval(t)
    if t.op == "add":
        return sum(numeval(x, val) for x in t.a)
    if t.op == "neg":
        return -numeval(t.a[0], val)
    if t.op == "bin":
        a, b = numeval(t.a[1], val), numeval(t.a[2], val)
        if t.a[0] == "-":
            return a - b
        if t.a[0] == "*":
            return a * b
        if t.a[0] == "//" and b:
            return a // b
        if t.a[0] == "%" and b:
            return a % b
    if is_call(t, "builtins.max", "builtins.min") and t.a[1] and not t.a[2] and not any(x.op == "star" for x in t.a[1]):
        f = max if t.a[0].a[0].endswith("max") else min
        xs = t.a[1]
        if len(xs) == 1 and xs[0].op in ("tup", "lst", "set"):
            xs = xs[0].a
        return f(numeval(x, val) for x in xs)
    if is_call(t, "builtins.int", "builtins.float", "builtins.abs", "builtins.bool") and len(t.a[1]) == 1:
        x = t.a[1][0]
        try:
            v = numeval(x, val)
        except Undecided:
            return int(truth_of(x, None, numleaf(val)))
        f = t.a[0].a[0]
        return abs(v) if f.endswith("abs") else v if f.endswith("float") else int(bool(v)) if f.endswith("bool") else v if v != v or v in (float("inf"), float("-inf")) else int(v)
    if t.op == "phi":
        return numeval(t.a[1] if truth_of(t.a[0], None, numleaf(val)) else t.a[2], val)
    if t.op in ("not", "and", "or", "cmp") or (t.op == "const" and isinstance(cval(t), bool)):
        return int(truth_of(t, None, numleaf(val)))
    raise Undecided("number " + show(t, 5))


def numleaf(val, more=None):
    """Leaf evaluator for conditions over quantities with known abstract values."""

    def leaf(c, env):
        if more is not None:
            v = more(c, env)
            if v is not None:
                return v
        if c.op == "cmp" and c.a[0] in ("lt", "eq", "is"):
            try:
                a, b = numeval(c.a[1], val), numeval(c.a[2], val)
            except Undecided:
                return None
            return a < b if c.a[0] == "lt" else a == b
        v = val(c)
        if v is not None:
            return bool(v)
        return None

    return leaf


def pick(t, leaf, env=None):
    """The alternative of a gated value selected by the given truth values of its conditions."""
    while t.op == "phi":
        t = t.a[1] if truth_of(t.a[0], env, leaf) else t.a[2]
    return t
