#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note,
                  state=state, observe=observe))


TRUST = (" Decides the named structural clauses on the current source; trusted: the value-flow engine in sa/ and Python's semantics of "
         "built-in containers. Constructs outside the understood fragment are listed as undecided in the evidence, never assumed.")

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        if p["state"]:
            d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in p["state"]]
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        d["anchors"]["hook_needed"] = None
        fh.write(json.dumps(d) + "\n")

checks = []
for p in P:
    if p["technique"] is None:
        continue
    if not os.path.exists(os.path.join(V, "rules", p["id"].lower() + ".py")):
        raise SystemExit("no rule for " + p["id"])
    checks.append(dict(property=p["id"], quick_cmd=f"python3 /verif/check.py {p['id']} --tier quick",
                       thorough_cmd=f"python3 /verif/check.py {p['id']} --tier thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="other", level_note=p["note"] + TRUST))
m = dict(version=1, setup_cmd="python3 -c 'import ast, sys; assert sys.version_info >= (3, 9)'", checks=checks,
         not_applicable=[dict(property=p["id"], reason=p["note"]) for p in P if p["technique"] is None],
         notes="All checks are static: they parse /repo/opt_einsum and never import or run it. See DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(P), "properties,", len(checks), "claimed")

# ------------------------------------------------------------------ DESIGN.md
exec(open(os.path.join(V, "tools", "how.py")).read())
txt = open(os.path.join(V, "tools", "design.tmpl")).read()
out = []
for p in P:
    if p["technique"] is None:
        continue
    out.append(f"### {p['id']} {p['title']}\n*Specified*: {p['statement']}\n\n*Decided by* {p['technique']}. {HOW[p['id']]}\n\n*Bounds*: none on inputs ({p['qtext']}). *Beyond tests*: {p['why']}\n")
txt = txt.replace("@@PROPS@@", "\n".join(out))
txt = txt.replace("@@NA@@", "\n".join(f"* **{p['id']}** {p['title']}: {p['note']}" for p in P if p["technique"] is None) or "None.")
kf = [json.loads(l) for l in open(os.path.join(V, "known_findings.jsonl")) if l.strip()]
txt = txt.replace("@@FIXED@@", "\n".join("* " + k["what"] for k in kf if k["status"] == "fixed"))
rows = ["| id | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {m.get('caught_by', m['property'])} |")
txt = txt.replace("@@BUGS@@", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(txt)
