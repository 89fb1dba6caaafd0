#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the harnesses that exist."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props
NA = {
}
checks, na = [], []
for p in props.P:
    pid = p["id"]
    f = os.path.join(V, "harness", pid.lower() + ".py")
    if os.path.exists(f) and pid not in NA:
        src = open(f).read()
        m = re.search(r'^LEVEL_NOTE = \(?"(.*?)"\)?$', src, re.M)
        note = m.group(1) if m else ""
        checks.append(dict(
            property=pid,
            quick_cmd="./check %s" % pid,
            thorough_cmd="./check %s --tier thorough" % pid,
            technique="bounded symbolic execution of the real source with z3 deciding every branch and assertion; counterexamples replayed natively",
            level="model_checking",
            level_note=("Every feasible path within the bounds listed in the evidence is explored and z3 decides each assertion for all values on it; nothing is claimed outside those bounds. " + note
                        + " Trusts the symbolic executor (validated each run by replaying sampled paths on the real code), z3, and the environment stand-ins listed under assumptions.").replace("  ", " "),
        ))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "not built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo: the checks instrument its source at load time.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
