"""Path explorer: depth-first search over the branch decisions of a re-executed
program, with the path condition held in an incremental z3 solver.

A "decision" is one use of a symbolic condition as a concrete truth value.  Both
outcomes are explored when the solver says both are satisfiable together with
the path condition; the explored tree is therefore exactly the set of feasible
control paths, and every assertion met on a path is put to the solver as
`path condition AND NOT assertion`.
"""
from __future__ import annotations

import time

import z3


class Control(BaseException):
    """Base of the exceptions that steer a path; never caught by code under test
    without the engine noticing (they are sticky)."""


class PathAbort(Control):
    """This path ends here (assumption not satisfiable, or budget spent)."""


class Unsupported(Control):
    """The engine met something it has no encoding for."""


class Nondeterminism(Control):
    pass


class Inconclusive(Control):
    """The solver answered unknown."""


class Decision:
    __slots__ = ("value", "forced", "alt_model", "sig", "expr", "pick")

    def __init__(self, value, forced, alt_model, sig, expr, pick=None):
        self.pick = pick
        self.value = value
        self.forced = forced
        self.alt_model = alt_model
        self.sig = sig
        self.expr = expr


CUR = None  # the engine of the path being executed


def cur():
    return CUR


class Engine:
    def __init__(self, seed=1, solver_timeout_ms=20000, max_depth=4000):
        global CUR
        CUR = self
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", solver_timeout_ms)
        self.solver.set("random_seed", seed)
        self.max_depth = max_depth
        self.trail: list[Decision] = []
        self.pos = 0  # next decision index on this path
        self.replay_to = 0  # decisions before this index are replayed
        self.model = None
        self.abort = None
        self.inputs = []  # (kind, name, value) in call order, this path
        self.serial = 0
        self.path_open = False
        self.solver_depth = 0  # number of solver frames == unforced decisions asserted
        # statistics
        self.n_queries = 0
        self.n_sat = 0
        self.n_unsat = 0
        self.n_unknown = 0
        self.solver_s = 0.0
        self.n_nodes = 0
        self.n_forks = 0
        self.n_paths = 0
        self.n_checks = 0
        self.n_checks_trivial = 0
        self.functions = set()
        self.covers = {}
        self.violations = []
        self.notes = {}
        self.concretised = {}
        self.incomplete = {}
        self.observations = []
        self.deadline = None
        self.query_log = None  # list collecting sample queries (smt2) for cross-checking
        self.pending_assumes = []

    # ---- solver -----------------------------------------------------------------
    def _check(self, *extra):
        if self.deadline is not None and time.monotonic() > self.deadline:
            self.stop("time budget")
        t = time.monotonic()
        r = self.solver.check(*extra)
        self.solver_s += time.monotonic() - t
        self.n_queries += 1
        if r == z3.sat:
            self.n_sat += 1
            return True
        if r == z3.unsat:
            self.n_unsat += 1
            return False
        self.n_unknown += 1
        self.abort = Inconclusive("solver answered unknown: %s" % self.solver.reason_unknown())
        raise self.abort

    def stop(self, why):
        self.abort = PathAbort(why)
        raise self.abort

    def unsupported(self, why):
        self.abort = Unsupported(why)
        raise self.abort

    def ensure_model(self):
        if self.model is None:
            if not self._check():
                self.stop("infeasible")
            self.model = self.solver.model()
        return self.model

    # ---- path life cycle --------------------------------------------------------
    def begin(self):
        self.pos = 0
        self.inputs = []
        self.observations = []
        self.memo = {}
        self.serial = 0
        self.abort = None
        self.path_open = True
        self.var_names = set()

    def load_prefix(self, prefix):
        """prefix: list of (value, forced) of a donated subtree root."""
        self.solver.reset()
        self.solver_depth = 0
        self.trail = [Decision(v, f, None, None, None, p) for v, f, p in prefix]
        self.replay_to = len(self.trail)
        self.building = bool(prefix)
        self.model = None
        self.root_len = len(self.trail)

    # Every event that constrains the solver belongs to the frame of the last
    # decision before it.  While replaying known decisions (pos < replay_to) the
    # solver already holds those constraints, except when a donated prefix is being
    # rebuilt ("building").
    def assume(self, expr):
        """Path-condition strengthening by an assumption (z3 Bool)."""
        if self.abort:
            raise self.abort
        if self.pos < self.replay_to:
            if self.building:
                self.solver.add(expr)
            return
        self.solver.add(expr)
        if self.model is not None and not z3.is_true(self.model.eval(expr, model_completion=True)):
            self.model = None
        self.ensure_model()

    def define(self, expr):
        """Constraint on a fresh variable: cannot make the path infeasible."""
        if self.abort:
            raise self.abort
        if self.pos < self.replay_to:
            if self.building:
                self.solver.add(expr)
            return
        self.solver.add(expr)
        if self.model is not None and not z3.is_true(self.model.eval(expr, model_completion=True)):
            self.model = None

    def branch(self, expr, pick=None):
        if self.abort:
            raise self.abort
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        i = self.pos
        if i < self.replay_to:
            d = self.trail[i]
            if self.building:
                d.sig = expr.hash()
                d.expr = expr
                if not d.forced:
                    self.solver.push()
                    self.solver_depth += 1
                    self.solver.add(expr if d.value else z3.Not(expr))
            elif d.sig is not None and d.sig != expr.hash():
                self.abort = Nondeterminism("replay diverged at decision %d: %s vs %s" % (i, d.expr, expr))
                raise self.abort
            self.pos += 1
            if self.pos == self.replay_to:
                self.building = False
            return d.value
        if i >= self.max_depth:
            self.incomplete["depth"] = self.incomplete.get("depth", 0) + 1
            self.stop("depth")
        self.n_nodes += 1
        m = self.ensure_model()
        v = z3.is_true(m.eval(expr, model_completion=True))
        other = z3.Not(expr) if v else expr
        self.solver.push()
        self.solver.add(other)
        sat = self._check()
        alt = self.solver.model() if sat else None
        self.solver.pop()
        if sat:
            self.n_forks += 1
            self.solver.push()
            self.solver_depth += 1
            self.solver.add(expr if v else z3.Not(expr))
            self.trail.append(Decision(v, False, alt, expr.hash(), expr, pick))
        else:
            self.trail.append(Decision(v, True, None, expr.hash(), expr, pick))
        self.pos += 1
        self.replay_to = self.pos
        return v

    def backtrack(self):
        """Move to the next unexplored path below the root; False when none is left."""
        while len(self.trail) > self.root_len:
            d = self.trail[-1]
            if d.forced:
                self.trail.pop()
                continue
            self.solver.pop()
            self.solver_depth -= 1
            if d.alt_model is None:
                self.trail.pop()
                continue
            d.value = not d.value
            self.solver.push()
            self.solver_depth += 1
            self.solver.add(d.expr if d.value else z3.Not(d.expr))
            self.model = d.alt_model
            d.alt_model = None
            self.replay_to = len(self.trail)
            return True
        return False

    def donate(self):
        """Give away the shallowest open alternative as a prefix, or None."""
        for i in range(self.root_len, len(self.trail)):
            d = self.trail[i]
            if not d.forced and d.alt_model is not None:
                d.alt_model = None
                return [(x.value, x.forced, x.pick) for x in self.trail[:i]] + [(not d.value, False, d.pick)]
        return None

    # ---- assertions ---------------------------------------------------------------
    def fresh_name(self, name):
        self.serial += 1
        return "%s!%d" % (name, self.serial)

    def model_value(self, expr, model=None):
        m = model if model is not None else self.ensure_model()
        v = m.eval(expr, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        raise AssertionError("model value of %s: %s" % (expr, v))

    def check(self, cond, msg):
        """cond: bool or z3 Bool.  Ask the solver for a path-condition model that breaks it."""
        if self.abort:
            raise self.abort
        if self.pos < self.replay_to:
            # verdict known from the first visit of this prefix, and the condition
            # was added to the path condition then
            if self.building and not isinstance(cond, bool):
                self.solver.add(cond)
            return
        self.n_checks += 1
        if isinstance(cond, bool):
            if cond:
                self.n_checks_trivial += 1
                return
            m = self.ensure_model()
            self.violations.append((msg, self.snapshot_inputs(m)))
            self.stop("violation")
        self.solver.push()
        self.solver.add(z3.Not(cond))
        if self.query_log is not None and len(self.query_log) < 3:
            self.query_log.append(self.solver.to_smt2())
        bad = self._check()
        m = self.solver.model() if bad else None
        self.solver.pop()
        if bad:
            self.violations.append((msg, self.snapshot_inputs(m)))
            self.assume(cond)
        # after an unsat answer the condition is implied: nothing to add

    def snapshot_inputs(self, m):
        out = []
        for kind, name, val in self.inputs:
            out.append([kind, name, concretise_value(val, m)])
        return out

    def concretise_int(self, expr, why, cap=300, unit=1):
        """Fork over every value of expr // unit (values enumerated by the solver)."""
        n = 0
        while True:
            if self.abort:
                raise self.abort
            if self.pos < self.replay_to:
                v = self.trail[self.pos].pick
                if v is None:
                    self.abort = Nondeterminism("replay diverged at a value choice (decision %d)" % self.pos)
                    raise self.abort
            else:
                v = self.model_value(expr) // unit
                if not z3.is_int_value(expr):
                    self.concretised[why] = self.concretised.get(why, 0) + 1
            if self.branch(expr == v if unit == 1 else z3.And(expr >= v * unit, expr < (v + 1) * unit), pick=v):
                return v
            n += 1
            if n > cap:
                self.incomplete[why] = self.incomplete.get(why, 0) + 1
                self.stop("concretisation cap: %s" % why)


def concretise_value(v, m):
    from . import values as V

    if isinstance(v, V.SymSeq):
        cs = [c if isinstance(c, int) else m.eval(c, model_completion=True).as_long() for c in v.chars]
        return "".join(map(chr, cs)) if v.kind == "str" else list(cs)
    if isinstance(v, (V.SymInt,)):
        return m.eval(v.e, model_completion=True).as_long()
    if isinstance(v, V.SymBool):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, bytes):
        return list(v)
    return v
