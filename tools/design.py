#!/usr/bin/env python3
"""Writes /verif/DESIGN.md (see design_head.md)."""
import ast, glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props
from design_notes import NOTES

out = [open(os.path.join(V, "tools/design_head.md")).read().rstrip() + "\n"]
seeds = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); m["id"] = f.split("/")[-2]
    seeds.setdefault(m["property"], []).append(m)
known = {}
for l in open(V + "/known_findings.txt"):
    m = re.match(r"(known|fixed): property=(C\d+) (\S+) (.*)", l)
    if m: known.setdefault(m.group(2), []).append((m.group(1), m.group(3), m.group(4)))

for p in props.P:
    pid = p["id"]
    f = os.path.join(V, "harness", pid.lower() + ".py")
    t = ast.parse(open(f).read())
    fs = {n.name: n for n in t.body if isinstance(n, ast.FunctionDef)}
    hs, asm = [], []
    for st in t.body:
        if isinstance(st, ast.Assign) and getattr(st.targets[0], "id", "") == "HARNESSES":
            for d in st.value.elts:
                kw = {k.arg: k.value for k in d.keywords}
                name = ast.literal_eval(kw["name"])
                doc = ast.get_docstring(fs[name]) or ""
                try: b = ast.literal_eval(kw["bounds"])
                except Exception: b = ast.unparse(kw["bounds"])
                hs.append((name, " ".join(doc.split()), b))
        if isinstance(st, ast.Assign) and getattr(st.targets[0], "id", "") == "ASSUMPTIONS":
            try: asm = ast.literal_eval(st.value)
            except Exception: asm = [ast.unparse(st.value)]
    oracle, cost = NOTES[pid]
    out.append("### %s %s\n" % (pid, p["title"]))
    out.append("Encoded: %s.\n" % "; ".join("%s (`%s`)" % (m["name"], m["where"]) for m in p["anchors"]["mechanism"]))
    out.append("Oracle: %s\n" % oracle)
    out.append("Reach: %s\n" % p["why_tests_cant"])
    for n, d, b in hs:
        out.append("- `%s`: %s Bounds: %s." % (n, d, b.rstrip(".")))
    out.append("")
    if asm: out.append("Assumptions: %s.\n" % "; ".join(a.rstrip(".") for a in asm))
    out.append("Cost (quick): about %s.\n" % cost)
    for k, c, x in known.get(pid, []):
        out.append(("- Repaired %s: %s." % (c, x)) if k == "fixed" else ("- Known finding %s: %s." % (c, x)))
    if known.get(pid): out.append("")
out.append("## Planted bugs and the checks that catch them\n")
out.append("| bug | caught by | manifests with | breaks |\n|---|---|---|---|")
for pid in sorted(seeds):
    for m in seeds[pid]:
        out.append("| %s | %s | %s | %s |" % (m["id"], m.get("caught_by", pid), m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
none = [p["id"] for p in props.P if p["id"] not in seeds]
if none: out.append("\nNo planted bug yet that passes the existing tests: %s." % ", ".join(none))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
