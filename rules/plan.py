"""Extraction of the planner (contract_path) and of the executor (_core_contract) shared by several rules."""
from sa.engine import is_call, mcall
from sa.kit import Undecided, show, strip
from sa.src import AnalysisBroken
from sa.terms import TRUE, const, contains, cval, is_const, kids, mk, subterms

CP_OPAQUE = frozenset({"helpers.find_contraction", "helpers.flop_count", "helpers.compute_size_by_dict", "blas.can_blas", "parser.parse_einsum_input",
                       "parser.find_output_shape", "paths.get_path_fn", "contract._choose_memory_arg", "parser.get_shape", "contract.PathInfo"})
CC_OPAQUE = frozenset({"contract._einsum", "contract._tensordot", "contract._transpose", "contract.parse_backend", "backends.dispatch.has_einsum",
                       "backends.dispatch.has_tensordot"})
FC = "helpers.find_contraction"


class Plan:
    """What contract_path records for one step, by role."""

    def __init__(self, ctx):
        self.r = r = ctx.run("contract.contract_path", public=True, opaque=CP_OPAQUE)
        self.where = ctx.p.fn("contract.contract_path").loc
        fcs = []
        for e in r.events:
            if e.kind == "call" and e.callee.op == "func" and e.callee.a[0] == FC:
                fcs.append(e)
        if len(fcs) != 1:
            raise Undecided(f"contract_path: {len(fcs)} calls of find_contraction")
        self.fce = fcs[0]
        recs = []
        for e in r.events:
            if e.kind == "mutate" and e.op in ("append",) and e.args and e.args[0].op == "tup" and len(e.args[0].a) >= 4 and contains(
                    e.args[0], lambda x: is_call(x, FC)):
                recs.append(e)
        if len(recs) != 1:
            raise Undecided(f"contract_path: {len(recs)} step records")
        self.rec = recs[0]
        self.tup = self.rec.args[0]
        self.fc = next(x for x in subterms(self.tup) if is_call(x, FC))
        self.roles = {}
        n = len(self.tup.a)
        pos_arg = strip(self.fc.a[1][0]) if self.fc.a[1] else None
        for k, t in enumerate(self.tup.a):
            if t.op == "idx" and t.a[0] is self.fc and is_const(t.a[1], 2):
                self.roles["removed"] = k
            elif contains(t, lambda x: is_call(x, "blas.can_blas")):
                self.roles["blas"] = k
            elif contains(t, lambda x: is_const(x, "->")) or (t.op == "add" and any(is_const(x, "->") for x in t.a)):
                self.roles["einsum"] = k
            elif order_of(t)[1] is not None and pos_arg is not None and order_of(t)[1] is order_of(self.fc.a[1][0])[1]:
                self.roles["inds"] = k
        rest = [k for k in range(n) if k not in self.roles.values()]
        if len(rest) == 1 and "remaining" not in self.roles:
            self.roles["remaining"] = rest[0]
        self.n = n

    def field(self, role):
        if role not in self.roles:
            raise Undecided(f"the step record has no recognisable {role} entry: " + show(self.tup, 4))
        return self.tup.a[self.roles[role]]


def order_of(t):
    """('desc' | 'asc' | 'raw', base): the order in which a sequence lists the elements of base"""
    o = "raw"
    flip = False
    while True:
        if is_call(t, "builtins.tuple", "builtins.list", "builtins.iter") and len(t.a[1]) == 1 and t.a[1][0].op != "star":
            t = t.a[1][0]
        elif is_call(t, "builtins.reversed") and len(t.a[1]) == 1:
            flip = not flip
            t = t.a[1][0]
        elif t.op == "idx" and t.a[1].op == "slice" and is_const(t.a[1].a[2], -1) and is_const(t.a[1].a[0], None) and is_const(t.a[1].a[1], None):
            flip = not flip
            t = t.a[0]
        elif is_call(t, "builtins.sorted") and t.a[1]:
            kws = dict(t.a[2])
            if "key" in kws:
                return None, None
            rev = kws.get("reverse")
            if rev is None or is_const(rev, False):
                o = "asc"
            elif is_const(rev, True):
                o = "desc"
            else:
                return None, None
            if flip:
                o = "desc" if o == "asc" else "asc"
            b = t.a[1][0]
            while is_call(b, "builtins.sorted", "builtins.tuple", "builtins.list", "builtins.set", "builtins.frozenset") and len(b.a[1]) == 1:
                b = b.a[1][0]
            return o, b
        elif t.op == "comp" and t.a[0] in ("list", "tuple", "gen") and len(t.a[2]) == 1 and t.a[3] is TRUE and t.a[1] is mk("elem", t.a[2][0], 0):
            t = t.a[2][0]
        else:
            return ("rawrev" if flip else "raw"), t


class Exec:
    """The step loop of _core_contract, with record fields named by role."""

    def __init__(self, ctx, plan):
        if not ctx.has("contract._core_contract"):
            raise Undecided("contract._core_contract is not in the source")
        self.r = ctx.run("contract._core_contract", opaque=CC_OPAQUE)
        self.where = ctx.p.fn("contract._core_contract").loc
        self.p = self.r.params
        self.plan = plan
        self.steps = self.p.get("contraction_list")
        if self.steps is None:
            raise Undecided("the executor has no contraction_list parameter")
        self.step = mk("elem", self.steps, 0)

    def role(self, t):
        """the role of a record field, or None"""
        if t.op == "idx" and t.a[1].op == "const" and isinstance(cval(t.a[1]), int) and self.is_step(t.a[0]):
            k = cval(t.a[1])
            if k < 0:
                k += self.plan.n
            for r, j in self.plan.roles.items():
                if j == k:
                    return r
            return "?"
        return None

    def is_step(self, t):
        return t is self.step or (t.op == "idx" and t.a[0] is self.steps and t.a[1].op == "pos")

    def calls(self, fq):
        return [e for e in self.r.events if e.kind == "call" and e.callee.op == "func" and e.callee.a[0] == fq]

    def split(self, t):
        """'left' / 'right' / 'lhs' / 'result' / 'eq': which part of the step's equation a string is"""
        if self.role(t) == "einsum":
            return "eq"
        if t.op == "idx" and t.a[1].op == "const" and isinstance(cval(t.a[1]), int):
            o, k = t.a[0], cval(t.a[1])
            for m in ("split", "partition", "rpartition", "rsplit"):
                b = mcall(o, m)
                if b is not None and o.a[1] and is_const(o.a[1][0], "->") and self.split(b) == "eq":
                    return {("split", 0): "lhs", ("split", 1): "result", ("split", -1): "result", ("rsplit", 0): "lhs", ("rsplit", 1): "result", ("rsplit", -1): "result",
                            ("partition", 0): "lhs", ("partition", 2): "result", ("partition", -1): "result", ("rpartition", 0): "lhs",
                            ("rpartition", 2): "result", ("rpartition", -1): "result"}.get((m, k))
                if b is not None and o.a[1] and is_const(o.a[1][0], ",") and self.split(b) == "lhs":
                    return {("split", 0): "left", ("split", 1): "right", ("split", -1): "right", ("rsplit", 0): "left", ("rsplit", 1): "right",
                            ("rsplit", -1): "right", ("partition", 0): "left", ("partition", 2): "right", ("partition", -1): "right"}.get((m, k))
        return None
