"""C04: planning and contracting never modify what the caller passed in."""
import ast

from sa.engine import root_of
from sa.kit import Undecided, show
from sa.src import AnalysisBroken
from sa.terms import cval, is_const, mk

DESC = ("Ownership / effect analysis: every construct that writes to an object (methods that change a container, item and attribute stores and deletions, in-place operators, heap operations, `out=` arguments, in-place array functions) that is reachable from a public entry "
        "point is collected with the objects it may write to; the object must have been created by the call, belong to the object the method is called on or to the module, or be the output the caller asked to have filled. The objects an instance keeps from the caller are followed into the other methods.")

CORE = ("contract.contract", "contract.contract_path", "contract.contract_expression", "contract.ContractExpression.__call__", "paths.optimal", "paths.greedy", "paths.branch", "paths.auto", "paths.auto_hq", "paths.BranchBound.__call__", "paths.DynamicProgramming.__call__",
        "path_random.RandomOptimizer.__call__", "path_random.random_greedy", "parser.parse_einsum_input", "blas.can_blas", "helpers.find_contraction", "helpers.compute_size_by_dict", "helpers.flop_count")
MORE = ("contract.ContractExpression.__init__", "contract.ContractExpression.evaluate_constants", "contract.format_const_einsum_str", "contract.shape_only", "contract.PathInfo.__init__", "contract.parse_backend", "contract.infer_backend",
        "paths.dynamic_programming", "paths.ssa_to_linear", "paths.linear_to_ssa", "paths.calc_k12_flops", "paths.ssa_greedy_optimize", "paths.get_path_fn", "paths.register_path_fn", "paths.BranchBound.__init__", "paths.DynamicProgramming.__init__", "paths.PathOptimizer._check_args_against_first_call",
        "path_random.RandomOptimizer.__init__", "path_random.RandomGreedy.__init__", "path_random.RandomGreedy.setup", "path_random.ssa_path_compute_cost", "path_random.thermal_chooser",
        "parser.is_valid_einsum_char", "parser.has_valid_einsum_chars_only", "parser.get_symbol", "parser.get_shape", "parser.possibly_convert_to_numpy", "parser.gen_unused_symbols", "parser.convert_to_valid_einsum_chars", "parser.alpha_canonicalize", "parser.find_output_str", "parser.find_output_shape",
        "parser.convert_subscripts", "parser.convert_interleaved_input", "sharing.transpose_cache_wrap", "sharing.tensordot_cache_wrap", "sharing.einsum_cache_wrap", "sharing.to_backend_cache_wrap", "sharing.count_cached_ops",
        "testing.build_shapes", "testing.build_views", "testing.rand_equation", "testing.build_arrays_from_tuples",
        "backends.object_arrays.object_einsum", "backends.torch.einsum", "backends.torch.tensordot", "backends.torch.transpose", "backends.torch.to_torch", "backends.torch.build_expression", "backends.torch.evaluate_constants",
        "backends.tensorflow.to_tensorflow", "backends.tensorflow.build_expression", "backends.tensorflow.evaluate_constants", "backends.jax.to_jax", "backends.jax.build_expression", "backends.jax.evaluate_constants", "backends.theano.to_theano", "backends.theano.build_expression", "backends.theano.evaluate_constants",
        "backends.cupy.to_cupy", "backends.cupy.build_expression", "backends.cupy.evaluate_constants", "backends.dispatch.build_expression", "backends.dispatch.evaluate_constants", "backends.dispatch.get_func")
# parameters whose purpose is to be written to
INOUT = {("path_random.thermal_chooser", "queue"), ("path_random.thermal_chooser", "remaining")}
OPQ = frozenset({"path_random.RandomOptimizer.setup"})
INPLACE = {"fill", "resize", "itemset", "put", "partition", "setfield", "setflags", "sort"}
EXTIN = {"numpy.copyto": 0, "numpy.put": 0, "numpy.place": 0, "numpy.putmask": 0, "numpy.fill_diagonal": 0, "numpy.random.shuffle": 0, "random.shuffle": 0, "heapq.heapify": 0, "heapq.heappush": 0, "heapq.heappop": 0}
ARR = {"ArrayType", "ndarray", "OpType", "OperandTypes"}
BOXES = {"List", "list", "Dict", "dict", "Set", "set", "MutableSequence", "MutableMapping", "deque", "Deque", "DefaultDict", "SizeDictType"}
FLAT = {"str", "int", "float", "bool", "Optional", "Union", "None", "Tuple", "tuple", "FrozenSet", "frozenset", "Literal", "Decimal", "Sequence", "Iterable", "Collection", "ArrayIndexType", "PathType", "TensorShapeType", "complex"}


def roots(eng, t, deep=False, seen=None):
    """[(root object, whether the value is a part of it, key it was taken by)] of everything a value may be"""
    seen = seen if seen is not None else set()
    if (t, deep) in seen:
        return []
    seen.add((t, deep))
    if t.op == "phi":
        return roots(eng, t.a[1], deep, seen) + roots(eng, t.a[2], deep, seen)
    if t.op == "mu":
        for lp in eng.loops.values():
            if t in lp.init:
                out = roots(eng, lp.init[t], deep, seen)
                if t in lp.step:
                    out += roots(eng, lp.step[t], deep, seen)
                return out
        return []
    if t.op == "out":
        out = []
        for lp in eng.loops.values():
            if lp.id == t.a[0]:
                for m in lp.init:
                    if m.a[1] == t.a[1]:
                        out += roots(eng, lp.init[m], deep, seen) + (roots(eng, lp.step[m], deep, seen) if m in lp.step else [])
        return out
    if t.op == "popped" and hasattr(t.a[0], "op"):
        return roots(eng, t.a[0], deep, seen)
    if t.op in ("idx", "get", "elem", "take", "next", "enter", "star", "esc", "setitem", "append", "getattr", "attr"):
        k = t.a[1] if len(t.a) > 1 else None
        if t.op == "get" and t.a[0].op == "param":
            return [(t.a[0], True, k)] + (roots(eng, t.a[2], deep, seen) if len(t.a) > 2 and hasattr(t.a[2], "op") else [])
        if t.op in ("idx", "attr") and t.a[0].op == "param":
            return [(t.a[0], True, k if hasattr(k, "op") else k)]
        if t.op == "elem" and t.a[0].op == "call" and t.a[0].a[0].op == "ext":
            n = t.a[0].a[0].a[0]
            if n in ("builtins.range", "builtins.map", "itertools.combinations", "itertools.product", "itertools.count"):
                return []
            return [x for a in t.a[0].a[1] for x in roots(eng, a, True, seen)]
        return roots(eng, t.a[0], True, seen)
    if t.op == "call" and t.a[0].op == "ext" and deep and t.a[0].a[0] in ("builtins.list", "builtins.tuple", "builtins.sorted", "builtins.reversed", "builtins.enumerate", "builtins.zip", "builtins.iter", "builtins.dict"):
        return [x for a in t.a[1] for x in roots(eng, a, True, seen)]
    if t.op == "comp" and deep and t.a[0] != "dict":
        return roots(eng, t.a[1], False, seen)
    if t.op in ("lst", "tup", "set") and deep:
        return [x for a in t.a if hasattr(a, "op") for x in roots(eng, a, False, seen)]
    if t.op == "param":
        return [(t, deep, None)]
    return []


def names_in(ann):
    out = set()
    for n in ast.walk(ann):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Attribute):
            out.add(n.attr)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str):
            try:
                out |= names_in(ast.parse(n.value, mode="eval").body)
            except SyntaxError:
                out.add("?")
    return out


def mutable(fn, name, deep):
    """whether an in-place operator on (part of) the parameter changes the caller's object: True / False / None"""
    a = fn.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        if x.arg == name:
            if x.annotation is None:
                pos = a.posonlyargs + a.args
                d = dict(zip([y.arg for y in pos][len(pos) - len(a.defaults):], a.defaults))
                d.update({y.arg: v for y, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
                v = d.get(name)
                return False if isinstance(v, ast.Constant) and isinstance(v.value, (int, float, str)) else None
            ns = names_in(x.annotation)
            if a.vararg is x and not deep:
                return False
            if ns & ARR:
                return True
            if not deep and ns & BOXES:
                return True
            if ns <= FLAT | BOXES:
                return False if deep or not ns & {"Sequence", "Iterable", "Collection"} else None
            return None
    return None


def own_params(ctx, fn):
    """parameter terms of the entry point whose objects belong to the caller: {term: name}"""
    out = {}
    a = fn.node.args
    for i, n in enumerate(fn.all_params()):
        if i == 0 and fn.cls is not None:
            continue
        out[mk("param", fn.fq, n)] = n
    return out, a.kwarg.arg if a.kwarg else None, a.vararg.arg if a.vararg else None


def writes(r):
    """(event, what, object, how) of everything the function may write to"""
    for e in r.events:
        if e.kind == "mutate":
            yield e, e.op, e.obj
        elif e.kind in ("setattr", "delattr"):
            yield e, ("sets ." if e.kind == "setattr" else "deletes .") + e.name, e.obj
        elif e.kind == "escape":
            yield e, "passes it to " + str(e.by) + ", which changes it:", e.obj
        elif e.kind == "call":
            for k, v in e.kws:
                if k == "out":
                    yield e, "out=", v
            c = e.callee
            if c.op == "ext" and c.a[0] in EXTIN and len(e.args) > EXTIN[c.a[0]]:
                yield e, c.a[0], e.args[EXTIN[c.a[0]]]
            if c.op == "attr" and c.a[1] == "partition" and any(x.op == "const" and isinstance(cval(x), str) for x in e.args):
                continue    # str.partition
            if c.op == "attr" and (c.a[1] in INPLACE or (c.a[1].endswith("_") and not c.a[1].startswith("_"))):
                yield e, "." + c.a[1], c.a[0]


def judge(ctx, fn, r, R):
    mine, kw, va = own_params(ctx, fn)
    bad, unk, n = [], [], 0
    ok_out = {p for p, nm in mine.items() if nm == "out"}
    for e, how, o in writes(r):
        n += 1
        for q, deep, key in roots(r.eng, o):
            if q not in mine or q in ok_out:
                continue
            nm = mine[q]
            if (fn.fq, nm) in INOUT:
                continue
            if nm == kw and not deep:
                continue    # the dictionary of keyword arguments is made by the call
            if nm == kw and (key == "out" or is_const(key, "out") if not isinstance(key, str) else key == "out"):
                continue
            if nm == va and not deep:
                continue    # a tuple: nothing can be stored in it
            bad.append((e, nm, how, show(o, 4)))
    for e in r.events:
        if e.kind == "augassign":
            o, op = e.obj, e.op
        elif e.kind == "mutate" and e.d.get("aug"):
            o, op = mk("idx", e.before, e.args[0]), "in-place operator"
        else:
            continue
        n += 1
        for q, deep, key in roots(r.eng, o):
            if q not in mine or q in ok_out or (fn.fq, mine[q]) in INOUT:
                continue
            m = mutable(fn, mine[q], deep)
            if m:
                bad.append((e, mine[q], op + "=", show(o, 4)))
            elif m is None:
                unk.append((e, mine[q], op + "="))
    return bad, unk, n


def r_entry(ctx):
    R = "arguments of the entry points"
    for fq in CORE + MORE:
        fn = ctx.p.fns.get(fq)
        if fn is None:
            if fq in CORE:
                raise AnalysisBroken(f"public function {fq} is missing")
            continue
        r = ctx.run(fq, opaque=OPQ)
        bad, unk, n = judge(ctx, fn, r, R)
        seen = set()
        for e, nm, how, what in bad:
            if (nm, e.loc) in seen:
                continue
            seen.add((nm, e.loc))
            ctx.put(False, R, f"{fq}({nm})", e.loc, f"the caller's `{nm}` is modified: {how} on {what} in {e.fq}")
        for e, nm, how in unk:
            ctx.put(None, R, f"{fq}({nm})", e.loc, f"an in-place {how} on a value that may be (part of) the caller's `{nm}`")
        if not bad and not unk:
            ctx.put(True, R, f"{fq}: {n} writes reachable, none to an argument", fn.loc)


def r_nested(ctx):
    """Functions defined inside an entry point and run later (generators, callbacks) write through captured variables."""
    R = "captured variables of nested functions"
    names = set(CORE + MORE)
    k = 0
    for fq, fn in sorted(ctx.p.fns.items()):
        o = fn.outer
        if o is None:
            continue
        top = o
        while top.outer is not None:
            top = top.outer
        if top.fq not in names:
            continue
        r = ctx.run(fq, opaque=OPQ)
        ro = ctx.run(o.fq, opaque=OPQ)
        k += 1
        bad = []
        for e, how, t in writes(r):
            for q, deep, key in roots(r.eng, t):
                if q.a[0] != o.fq:
                    continue
                nm = q.a[1]
                v = ro.state.vars.get((ro.frame.id, nm))
                if v is None:
                    continue
                for q2, d2, _ in roots(ro.eng, v, deep):
                    if q2.op == "param" and q2.a[0] == o.fq and q2.a[1] != "out" and o.outer is None and not (o.cls is not None and q2.a[1] == o.all_params()[0]):
                        kwn = o.node.args.kwarg.arg if o.node.args.kwarg else None
                        if q2.a[1] == kwn and not d2:
                            continue
                        bad.append((e, q2.a[1], how))
        for e, nm, how in bad:
            ctx.put(False, R, f"{fq} ({nm} of {o.fq})", e.loc, f"the caller's `{nm}` is modified through a captured variable: {how}")
        if not bad:
            ctx.put(True, R, fq, fn.loc)
    if not k:
        ctx.put(True, R, "no nested functions in the entry points", "")


def r_kept(ctx):
    """An object stored on an instance as it was given is still the caller's."""
    R = "objects kept from the caller"
    for cn in ("contract.ContractExpression", "contract.PathInfo", "paths.BranchBound", "paths.DynamicProgramming", "path_random.RandomOptimizer", "path_random.RandomGreedy"):
        c = ctx.p.classes.get(cn)
        if c is None:
            continue
        borrowed, wr = {}, []
        runs = []
        for name, f in sorted(c.methods.items()):
            if any(ast.unparse(d).split("(")[0] in ("staticmethod", "classmethod") for d in f.decorators) or not f.all_params():
                continue
            runs.append((f, ctx.run(f.fq, opaque=OPQ)))
        for f, r in runs:
            s = r.params[f.all_params()[0]]
            for e in r.events:
                if e.kind == "setattr" and e.obj is s:
                    for q, deep, _ in roots(r.eng, e.d["raw"]):
                        if q.a[0] == f.fq and q is not s:
                            borrowed.setdefault(e.name, []).append((q.a[1], e))
            for e, how, o in writes(r):
                if e.kind == "setattr" and e.obj is s:
                    continue
                if how == "out=":
                    continue
                for q, deep, key in roots(r.eng, o):
                    if q is s and deep and key is not None:
                        wr.append((key if isinstance(key, str) else None, e, how))
        for a, ps in sorted(borrowed.items()):
            hit = [(e, how) for k, e, how in wr if k == a]
            if a in ("out",):
                continue
            ctx.put(not hit, R, f"{cn}.{a} (given as `{ps[0][0]}`)", (hit[0][0] if hit else ps[0][1]).loc, "the object kept from the caller is modified: " + (hit[0][1] if hit else ""))


def check(ctx):
    ctx.rule("arguments", r_entry)
    ctx.rule("nested functions", r_nested)
    ctx.rule("kept objects", r_kept)
