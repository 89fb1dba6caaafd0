"""Runs the harnesses of one property: symbolic exploration on all cores, then concrete
replay of every counterexample and of a sample of explored paths on the real code."""
from __future__ import annotations

import argparse
import importlib.util
import json
import multiprocessing as mp
import os
import queue
import re
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
APP_PY = "/opt/venv/bin/python"


def load_harness(path):
    """The harness module, instrumented like the code under test."""
    from . import loader as L

    name = os.path.splitext(os.path.basename(path))[0]
    L.INSTRUMENT_PREFIXES.setdefault("hlib", os.path.dirname(path))
    for file in os.listdir(os.path.dirname(path)):
        if file.endswith(".py") and not re.match(r"c\d+\.py", file):
            L.INSTRUMENT_PREFIXES.setdefault(file[:-3], os.path.dirname(path))
    L.INSTRUMENT_PREFIXES[name] = os.path.dirname(path)
    return L.load(name)


class Stats(dict):
    def add(self, other):
        for k, v in other.items():
            if isinstance(v, (int, float)):
                self[k] = self.get(k, 0) + v
            elif isinstance(v, dict):
                d = self.setdefault(k, {})
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            elif isinstance(v, (set, frozenset)):
                self.setdefault(k, set()).update(v)
            elif isinstance(v, list):
                self.setdefault(k, []).extend(v)


_STATE = []


def process_state():
    """The state of the code under test when this worker started (before its first path)."""
    if not _STATE:
        from . import models
        from .state import State

        _STATE.append(State(raw=models._hash))
    return _STATE[0]


def run_task(mod, spec, prefix, tier, seed, deadline, idle, tasks, outstanding, stop, emit, sample_every, log_queries):
    from . import api
    from . import engine as E

    state = process_state()
    eng = E.Engine(seed=seed)
    eng.deadline = deadline
    eng.query_log = [] if log_queries else None
    eng.load_prefix(prefix)
    s = api.S(tier)
    s.restart = state.restore
    fn = getattr(mod, spec["func"])
    samples = []
    outcome = {}
    errors = []
    exhausted = True
    npaths = 0
    nviol = 0
    while True:
        state.restore()
        eng.begin()
        why = "done"
        exc = None
        try:
            fn(s)
            if eng.abort:
                raise eng.abort
        except E.PathAbort as e:
            why = "abort:" + str(e)
        except E.Control as e:
            why = type(e).__name__
            if len(errors) < 5:
                errors.append("%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6)))
        except RecursionError as e:
            why = "RecursionError"
            errors.append(traceback.format_exc(limit=-6))
        except Exception as e:
            if eng.abort is not None:
                why = type(eng.abort).__name__ + ":" + str(eng.abort)
                if not isinstance(eng.abort, E.PathAbort) and len(errors) < 5:
                    errors.append("%s (swallowed)\n%s" % (why, traceback.format_exc(limit=-6)))
            else:
                why = "exception"
                exc = e
        if exc is None and eng.abort is not None and why == "done":
            why = "abort:" + str(eng.abort)
        npaths += 1
        if exc is not None:
            try:
                m = eng.ensure_model()
                eng.violations.append(
                    ("unexpected %s: %s" % (type(exc).__name__, str(exc)[:200]), eng.snapshot_inputs(m))
                )
                eng.last_tb = "".join(traceback.format_exception(exc, limit=-8))
            except E.Control:
                why = "exception on infeasible path"
        outcome[why] = outcome.get(why, 0) + 1
        if eng.violations:
            for v in eng.violations:
                nviol += 1
                if nviol <= 40:
                    emit(("violation", spec["name"], v[0], v[1], getattr(eng, "last_tb", None) if exc is not None else None))
            eng.violations = []
        elif why == "done" and (npaths <= 2 or npaths % sample_every == 0) and len(samples) < 25:
            try:
                m = eng.ensure_model()
                samples.append(
                    {"inputs": eng.snapshot_inputs(m), "observations": [[l, api.freeze(v, m)] for l, v in eng.observations]}
                )
            except E.Control:
                pass
        if why == "abort:time budget" or time.monotonic() > deadline:
            exhausted = False
            break
        if stop.value:
            exhausted = False
            break
        if not eng.backtrack():
            break
        if idle.value > 0 and tasks.qsize() < 8:
            p = eng.donate()
            if p is not None:
                with outstanding.get_lock():
                    outstanding.value += 1
                tasks.put((spec["name"], p))
    st = Stats(
        paths=npaths,
        nodes=eng.n_nodes,
        forks=eng.n_forks,
        queries=eng.n_queries,
        sat=eng.n_sat,
        unsat=eng.n_unsat,
        unknown=eng.n_unknown,
        solver_s=eng.solver_s,
        checks=eng.n_checks,
        checks_trivial=eng.n_checks_trivial,
        covers=eng.covers,
        concretised=eng.concretised,
        incomplete=eng.incomplete,
        outcome=outcome,
        functions=eng.functions,
        errors=errors,
        notes=eng.notes,
        not_exhausted=0 if exhausted else 1,
        samples=samples,
        smt2=eng.query_log or [],
    )
    emit(("done", spec["name"], st))


def worker(wid, mod, specs, tier, seed, deadline, idle, tasks, outstanding, stop, results, sample_every):
    from . import engine as E

    sys.setrecursionlimit(20000)
    byname = {s["name"]: s for s in specs}
    first = True
    with idle.get_lock():
        idle.value += 1
    while True:
        try:
            name, prefix = tasks.get(timeout=0.05)
        except queue.Empty:
            if outstanding.value == 0 or stop.value:
                return
            continue
        with idle.get_lock():
            idle.value -= 1
        try:
            if not stop.value:
                run_task(mod, byname[name], prefix, tier, seed, deadline, idle, tasks, outstanding, stop, results.put, sample_every, first and wid == 0)
                first = False
        except BaseException:
            results.put(("crash", name, traceback.format_exc()))
        finally:
            with idle.get_lock():
                idle.value += 1
            with outstanding.get_lock():
                outstanding.value -= 1


PER_KEY = 6  # counterexamples replayed per harness and message


def explore(mod, specs, tier, seed, budget, jobs, sample_every, known, path):
    func = {s["name"]: s["func"] for s in specs}
    tried = {}
    rounds = 0
    ctx = mp.get_context("fork")
    tasks = ctx.Queue()
    results = ctx.Queue()
    idle = ctx.Value("i", 0)
    outstanding = ctx.Value("i", 0)
    stop = ctx.Value("i", 0)
    deadline = time.monotonic() + budget
    for s in specs:
        outstanding.value += 1
        tasks.put((s["name"], []))
    time.sleep(0.05)
    procs = [
        ctx.Process(
            target=worker,
            args=(i, mod, specs, tier, seed, deadline, idle, tasks, outstanding, stop, results, sample_every),
            daemon=True,
        )
        for i in range(jobs)
    ]
    for p in procs:
        p.start()
    stats = {s["name"]: Stats() for s in specs}
    violations = []
    crashes = []
    end_by = None
    while True:
        try:
            msg = results.get(timeout=0.1)
        except queue.Empty:
            if outstanding.value == 0 or not any(p.is_alive() for p in procs):
                # drain
                try:
                    while True:
                        msg = results.get(timeout=0.3)
                        _handle(msg, stats, violations, crashes)
                except queue.Empty:
                    break
            if end_by and time.monotonic() > end_by:
                break
            continue
        _handle(msg, stats, violations, crashes)
        if msg[0] == "violation" and not stop.value and not _known_tag(msg[2], known):
            # Replayed at once: one that does not reproduce leaves its path undecided, and the
            # exploration goes on.
            v = violations[-1]
            key = (v["harness"], v["msg"])
            if tried.get(key, 0) < PER_KEY and rounds < 60:
                tried[key] = tried.get(key, 0) + 1
                rounds += 1
                v["replay"] = native(path, "", [{"func": func[v["harness"]], "inputs": v["inputs"], "tier": tier}])[0]
                if v["replay"]["status"] in ("failed", "exception"):
                    stop.value = 1
                    end_by = end_by or time.monotonic() + 30
        if msg[0] == "crash":
            stop.value = 1
            end_by = end_by or time.monotonic() + 30
    for p in procs:
        p.join(timeout=1)
        if p.is_alive():
            p.kill()
    return stats, violations, crashes


def _known_tag(msg, known):
    m = re.match(r"\[(K\d+)\]", msg)
    return bool(m) and m.group(1) in known


def _handle(msg, stats, violations, crashes):
    if msg[0] == "done":
        stats[msg[1]].add(msg[2])
    elif msg[0] == "violation":
        violations.append({"harness": msg[1], "msg": msg[2], "inputs": msg[3], "tb": msg[4]})
    elif msg[0] == "crash":
        crashes.append((msg[1], msg[2]))


def native(path, func, jobs, timeout=300):
    if not jobs:
        return []
    with tempfile.TemporaryDirectory(prefix="sxreplay") as d:
        jf, of = os.path.join(d, "jobs.json"), os.path.join(d, "out.json")
        with open(jf, "w") as f:
            json.dump(jobs, f)
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", TMPDIR=d)
        env.pop("PYTHONPATH", None)
        p = subprocess.run(
            [APP_PY, os.path.join(VERIF, "symex", "native.py"), path, func, jf, of],
            capture_output=True,
            text=True,
            timeout=timeout,
            env=env,
            cwd=d,
        )
        if not os.path.exists(of):
            raise RuntimeError("native replay failed:\n%s\n%s" % (p.stdout[-2000:], p.stderr[-4000:]))
        with open(of) as f:
            return json.load(f)


def load_known(prop):
    """Finding ids of `prop` listed as known (not fixed) in known_findings.txt."""
    out = {}
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\S+) id=(K\d+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def crosscheck(smt2s):
    """Put sample queries of this run to cvc5 as well."""
    n = agree = 0
    for txt, want in smt2s:
        try:
            p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=10000", "-"], input=txt, capture_output=True, text=True, timeout=20)
        except Exception:
            continue
        got = p.stdout.strip().splitlines()
        if got and got[0] in ("sat", "unsat"):
            n += 1
            agree += got[0] == want
    return n, agree


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=os.cpu_count())
    ap.add_argument("--only", default=None)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--replay", default=None, help="replay a saved counterexample file on the real code")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = a.property
    path = os.path.join(VERIF, "harness", prop.lower() + ".py")
    if a.replay:
        job = json.load(open(a.replay))
        r = native(path, job["func"], [job])
        print(json.dumps(r, indent=1))
        return 1 if r[0]["status"] in ("failed", "exception") else 0
    t0 = time.monotonic()
    import z3  # noqa: F401  (before the application's site-packages)

    from . import loader as L
    from . import shims

    sys.path.insert(0, L.SITE)
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    shims.install()
    from . import engine as E
    from . import envshims

    envshims.install()
    E.CUR = E.Engine()
    E.CUR.load_prefix([])
    E.CUR.begin()
    mod = load_harness(path)
    specs = [s for s in mod.HARNESSES if (a.tier == "thorough" or not s.get("thorough_only"))]
    for s in specs:
        s.setdefault("func", s["name"])
    if a.only:
        specs = [s for s in specs if re.search(a.only, s["name"])]
    known = load_known(prop)
    budget = a.budget or getattr(mod, "BUDGET", {}).get(a.tier, 300 if a.tier == "quick" else 3600)
    stats, violations, crashes = explore(mod, specs, a.tier, seed, budget, a.jobs, 37 if a.tier == "quick" else 211, known, path)
    t_sym = time.monotonic() - t0
    rc = 0
    lines = []
    out_dir = os.path.join(os.environ.get("SX_REPLAY_DIR", os.path.join(VERIF, "evidence", "replay")))
    # --- counterexamples: replay on the real code
    seen_known = {}
    real = 0
    unreproduced = 0
    gaps = {}  # exceptions that only the executor raised: paths it could not follow
    if violations:
        # a bounded number per message
        pick = []
        per = {}
        for v in sorted(violations, key=lambda v: "replay" not in v):
            key = (v["harness"], v["msg"])
            if "replay" in v or per.get(key, 0) < 3:
                per[key] = per.get(key, 0) + 1
                pick.append(v)
        func = {s["name"]: s["func"] for s in specs}
        jobs = [{"func": func[v["harness"]], "inputs": v["inputs"], "tier": a.tier} for v in pick]
        todo = [i for i, v in enumerate(pick) if "replay" not in v]
        for i, r in zip(todo, native(path, "", [jobs[i] for i in todo])):
            pick[i]["replay"] = r
        res = [v["replay"] for v in pick]
        os.makedirs(out_dir, exist_ok=True)
        for v, j, r in zip(pick, jobs, res):
            j.update(property=prop, harness=v["harness"], message=v["msg"], replay=r)
            ok = r["status"] in ("failed", "exception")
            if not ok:
                if v["tb"] is not None or v["msg"].startswith("unexpected "):
                    gaps[v["msg"]] = gaps.get(v["msg"], 0) + 1
                else:
                    unreproduced += 1
                if gaps.get(v["msg"], 0) <= 2:
                    lines.append("UNREPRODUCED property=%s harness=%s %s: replay gave %s %s inputs=%s" % (prop, v["harness"], v["msg"], r["status"], r.get("msgs"), json.dumps(v["inputs"])[:600]))
                if a.v and v["tb"]:
                    lines.append(v["tb"])
                continue
            msgs = r.get("msgs") or [v["msg"]]
            tag = re.match(r"\[(K\d+)\]", msgs[0])
            if tag and tag.group(1) in known:
                seen_known[tag.group(1)] = j
                continue
            real += 1
            if real <= 5:
                f = os.path.join(out_dir, "%s-%d.json" % (prop, real))
                json.dump(j, open(f, "w"), indent=1)
                lines.append("VIOLATION property=%s replay=%s" % (prop, f))
                lines.append("  harness=%s: %s" % (v["harness"], msgs[0]))
                lines.append("  inputs=%s" % json.dumps([[n, x] for _, n, x in v["inputs"]])[:1500])
                if a.v and r.get("tb"):
                    lines.append(r["tb"])
    for k in sorted(seen_known):
        lines.append("KNOWN-FINDING: property=%s %s %s" % (prop, k, known[k]))
    # --- translator validation: sampled paths must behave alike on the real code
    validated = 0
    disagreements = []
    per_h = {}
    if not real:
        jobs = []
        ref = []
        for s in specs:
            sm = stats[s["name"]].get("samples", [])[: 80]
            for x in sm:
                jobs.append({"func": s["func"], "inputs": x["inputs"], "tier": a.tier})
                ref.append((s["name"], x))
        res = native(path, "", jobs) if jobs else []
        for (name, x), r in zip(ref, res):
            if r["status"] == "ok" and json.dumps(r["observations"]) == json.dumps(x["observations"]):
                validated += 1
                per_h[name] = per_h.get(name, 0) + 1
            elif r["status"] in ("failed", "exception"):
                # the inputs the solver chose for this path break the property on the real code
                real += 1
                if real <= 5:
                    os.makedirs(out_dir, exist_ok=True)
                    f = os.path.join(out_dir, "%s-%d.json" % (prop, real))
                    json.dump(dict(func=[s["func"] for s in specs if s["name"] == name][0], inputs=x["inputs"], tier=a.tier, property=prop, harness=name, replay=r), open(f, "w"), indent=1)
                    lines.append("VIOLATION property=%s replay=%s" % (prop, f))
                    lines.append("  harness=%s (on replay): %s" % (name, r.get("msgs")))
                    if a.v and r.get("tb"):
                        lines.append(r["tb"])
            else:
                disagreements.append((name, x, r))
    for name, x, r in disagreements[:5]:
        lines.append("DISAGREEMENT property=%s harness=%s real=%s %s\n   symbolic=%s\n   inputs=%s" % (prop, name, r["status"], json.dumps([r.get("msgs"), r["observations"]])[:1500], json.dumps(x["observations"])[:1500], json.dumps(x["inputs"])[:600]))
        if a.v and r.get("tb"):
            lines.append(r["tb"])
    # --- vacuity
    total = Stats()
    for s in specs:
        total.add(stats[s["name"]])
    missing = []
    unexplored = []  # not reached, but the harness was not explored to the end either
    for s in specs:
        part = (
            stats[s["name"]].get("not_exhausted")
            or stats[s["name"]].get("incomplete")
            or any(k.split(":")[0] in ("Unsupported", "Inconclusive") for k in stats[s["name"]].get("outcome", {}))
        )
        for c in s.get("covers", []):
            if not stats[s["name"]].get("covers", {}).get(c):
                (unexplored if part else missing).append("%s:%s" % (s["name"], c))
        if not stats[s["name"]].get("checks", 0) and not a.only:
            (unexplored if part else missing).append("%s:no assertion reached" % s["name"])
    bad_paths = {k: v for k, v in total.get("outcome", {}).items() if k.split(":")[0] in ("Unsupported", "Nondeterminism", "Inconclusive", "RecursionError")}
    bad_paths.update({"gap: " + k: v for k, v in gaps.items()})
    exhaustive = not total.get("not_exhausted") and not total.get("incomplete") and not bad_paths
    if real:
        rc = 1
    elif crashes:
        rc = 3
    elif unreproduced or disagreements:
        rc = 3
    elif missing:
        rc = 2
    for c in crashes[:3]:
        lines.append("CRASH %s\n%s" % c)
    if missing and rc != 1:
        lines.append("UNREACHED: %s" % ", ".join(missing))
    if not exhaustive:
        lines.append(
            "INCOMPLETE property=%s not_exhausted=%s incomplete=%s paths=%s%s"
            % (prop, total.get("not_exhausted"), total.get("incomplete"), bad_paths, " unreached=%s" % unexplored if unexplored else "")
        )
    ncross = agree = 0
    if a.tier == "thorough" and total.get("smt2"):
        pairs = []
        for t in total["smt2"][:10]:
            sv = z3.Solver()
            sv.from_string(t)
            pairs.append((t if "(check-sat)" in t else t + "\n(check-sat)\n", str(sv.check())))
        ncross, agree = crosscheck(pairs)
        if ncross != agree and rc == 0:
            lines.append("SOLVER DISAGREEMENT cvc5 vs z3")
            rc = 3
    wall = time.monotonic() - t0
    samples = []
    for s in specs:
        for x in stats[s["name"]].get("samples", [])[:2]:
            samples.append({"harness": s["name"], "inputs": [[n, v] for _, n, v in x["inputs"]], "observations": x["observations"]})
    ev = {
        "property": prop,
        "tier": a.tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": int(total.get("nodes", 0)) + int(total.get("paths", 0)),
            "transitions": int(total.get("forks", 0)) * 2 + int(total.get("nodes", 0)) - int(total.get("forks", 0)),
            "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "paths": total.get("paths", 0),
            "paths_by_outcome": total.get("outcome", {}),
            "exhaustive": bool(exhaustive),
            "assertions_decided": total.get("checks", 0),
            "assertions_concrete_on_path": total.get("checks_trivial", 0),
            "solver_queries": total.get("queries", 0),
            "solver_sat": total.get("sat", 0),
            "solver_unsat": total.get("unsat", 0),
            "solver_unknown": total.get("unknown", 0),
            "solver_s": round(total.get("solver_s", 0.0), 3),
            "functions_encoded": sorted(total.get("functions", [])),
            "reachability_witnesses": total.get("covers", {}),
            "values_enumerated_by_solver": total.get("concretised", {}),
            "incomplete": total.get("incomplete", {}),
            "cvc5_crosschecked": ncross,
            "cvc5_agreed": agree,
            "known_findings_observed": sorted(seen_known),
            "harnesses": {
                s["name"]: {
                    "bounds": s.get("bounds_thorough" if a.tier == "thorough" else "bounds") or s.get("bounds", ""),
                    "paths": stats[s["name"]].get("paths", 0),
                    "queries": stats[s["name"]].get("queries", 0),
                    "solver_s": round(stats[s["name"]].get("solver_s", 0.0), 3),
                    "exhausted": not stats[s["name"]].get("not_exhausted", 0),
                    "replayed_equal": per_h.get(s["name"], 0),
                }
                for s in specs
            },
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": real,
    }
    if not a.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for l in lines:
        print(l)
    if a.v:
        for s in specs:
            st = stats[s["name"]]
            print("  %-28s paths=%d checks=%d(%d trivial) queries=%d solver=%.1fs replayed=%d outcome=%s covers=%s conc=%s" % (s["name"], st.get("paths", 0), st.get("checks", 0), st.get("checks_trivial", 0), st.get("queries", 0), st.get("solver_s", 0), per_h.get(s["name"], 0), st.get("outcome"), st.get("covers"), st.get("concretised")))
        for e in total.get("errors", [])[:4]:
            print("  ERR", e)
    print("%s tier=%s rc=%d paths=%d assertions=%d queries=%d replays=%d wall=%.1fs exhaustive=%s" % (prop, a.tier, rc, total.get("paths", 0), total.get("checks", 0), total.get("queries", 0), validated, wall, exhaustive))
    sys.stdout.flush()
    return rc
