"""Developer aid: print the value-flow summary of functions (python3 -m sa.dump FQ...)."""
import sys

from .engine import Engine
from .src import Project
from .terms import show


def main():
    p = Project()
    depth, opaque, names = 30, set(), []
    for a in sys.argv[1:]:
        if a.startswith("-d"):
            depth = int(a[2:])
        elif a.startswith("-o"):
            opaque |= set(a[2:].split(","))
        else:
            names.append(a)
    for fq in names:
        e = Engine(p, opaque=opaque)
        r = e.run(fq)
        print("==", fq, "->", show(e.freeze(r.ret, r.state), depth))
        for ev in r.events:
            d = {k: (show(v, depth) if hasattr(v, "op") else tuple(show(x, depth) for x in v) if isinstance(v, tuple) and v and hasattr(v[0], "op") else v)
                 for k, v in ev.d.items() if k not in ("raw", "rawargs", "rawkws", "term", "before", "content")}
            print(f"  {ev.kind} {ev.fq}:{getattr(ev.node, 'lineno', '?')} {d} | F={[show(f, depth) for f in ev.facts]} L={[l[0] for l in ev.loops]} T={[t[1] for t in ev.tries]}")


if __name__ == "__main__":
    main()
