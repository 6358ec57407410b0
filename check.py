#!/usr/bin/env python3
"""check.py <property id>... [--tier quick|thorough] [-v]: static checks of opt_einsum's properties (see DESIGN.md)."""
import importlib
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa.kit import Ctx, finish  # noqa: E402
from sa.src import AnalysisBroken, Project  # noqa: E402


def main():
    ids, tier, verbose = [], os.environ.get("VERIF_TIER", "quick"), False
    it = iter(sys.argv[1:])
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "-v":
            verbose = True
        elif a == "all":
            ids += sorted(f[:-3].upper() for f in os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "rules"))
                          if f.startswith("c") and f[1:3].isdigit())
        else:
            ids.append(a)
    rc = 0
    for pid in ids:
        t0 = time.time()
        try:
            mod = importlib.import_module("rules." + pid.lower())
            ctx = Ctx(pid, tier, Project())
            mod.check(ctx)
        except AnalysisBroken as e:
            print(f"{pid}: analysis broken: {e}")
            rc = max(rc, 2)
            continue
        if verbose:
            for o in ctx.obs:
                print(f"   [{o['verdict']}] {o['rule']} / {o['construct']} {o['where']} {o['detail']}"[:400])
        r = finish(ctx, mod.DESC, t0)
        rc = r if r == 1 or rc == 0 else rc
    return rc


if __name__ == "__main__":
    sys.exit(main())
