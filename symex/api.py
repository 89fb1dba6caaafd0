"""The harness API, symbolic side.  native.py is its twin for concrete replay."""
from __future__ import annotations

import z3

from . import engine as E
from . import models as M
from . import values as V

BMP_NO_SUR = V.Ranges([(0, 0xD7FF), (0xE000, 0x10FFFF)])


class S:
    symbolic = True

    def __init__(self, tier="quick"):
        self.tier = tier
        self.thorough = tier == "thorough"

    def q(self, quick, thorough):
        """Pick a bound by tier."""
        return thorough if self.thorough else quick

    # -- inputs
    def int(self, name, lo=None, hi=None):
        eng = E.CUR
        v = z3.Int(eng.fresh_name(name))
        cs = []
        if lo is not None:
            cs.append(v >= V.zi(lo))
        if hi is not None:
            cs.append(v <= V.zi(hi))
        if cs:
            eng.define(z3.And(*cs) if len(cs) > 1 else cs[0])
        r = V.SymInt(v)
        eng.inputs.append(("int", name, r))
        return r

    def bool(self, name):
        eng = E.CUR
        r = V.SymBool(z3.Bool(eng.fresh_name(name)))
        eng.inputs.append(("bool", name, r))
        return r

    def flag(self, name):
        """A boolean decided (forked) on the spot."""
        return bool(self.bool(name))

    def choice(self, name, seq):
        """One element of a concrete sequence (forks)."""
        seq = list(seq)
        i = self.pick(name, 0, len(seq) - 1)
        return seq[i]

    def pick(self, name, lo, hi):
        """A concrete int in [lo, hi] (forks over all values)."""
        eng = E.CUR
        v = z3.Int(eng.fresh_name(name))
        eng.define(z3.And(v >= lo, v <= hi))
        eng.inputs.append(("int", name, V.SymInt(v)))
        for k in range(lo, hi):
            if eng.branch(v == k):
                return k
        return hi

    def _chars(self, name, n, ranges):
        eng = E.CUR
        base = eng.fresh_name(name)
        cs = tuple(z3.Int("%s.%d" % (base, i)) for i in range(n))
        parts = []
        for c in cs:
            t = ranges.test(c)
            parts.append(t)
            # keep the domain itself in the path condition even for the full range
            if ranges.r and ranges.r[0][0] == 0:
                parts.append(c >= 0)
            if ranges.r and ranges.r[-1][1] >= 0x10FFFF:
                parts.append(c <= 0x10FFFF)
        parts = [p for p in parts if p is not True]
        if parts:
            eng.define(z3.And(*parts) if len(parts) > 1 else parts[0])
        return cs

    def str(self, name, min=0, max=4, alphabet=None, exclude=None, ranges=None):
        r = self._alpha(alphabet, exclude, ranges, BMP_NO_SUR)
        n = self.pick(name + ".len", min, max) if min != max else min
        cs = self._chars(name, n, r)
        v = V.mkseq("str", cs)
        E.CUR.inputs.append(("str", name, v))
        return v

    def bytes(self, name, min=0, max=4, alphabet=None, exclude=None, ranges=None):
        r = self._alpha(alphabet, exclude, ranges, V.Ranges([(0, 255)]))
        n = self.pick(name + ".len", min, max) if min != max else min
        cs = self._chars(name, n, r)
        v = V.mkseq("bytes", cs)
        E.CUR.inputs.append(("bytes", name, v))
        return v

    def _alpha(self, alphabet, exclude, ranges, default):
        if alphabet is not None:
            r = V.ranges_of(alphabet)
        elif ranges is not None:
            r = V.Ranges([(a if isinstance(a, int) else ord(a), b if isinstance(b, int) else ord(b)) for a, b in ranges])
        else:
            r = default
        if exclude:
            ex = V.ranges_of(exclude)
            out = []
            inv = ex.invert()
            for a, b in r.r:
                for c, d in inv.r:
                    lo, hi = max(a, c), min(b, d)
                    if lo <= hi:
                        out.append((lo, hi))
            r = V.Ranges(out)
        return r

    def file(self, name, text):
        """The path of a text file with this content."""
        from . import envshims

        return envshims.make_file(name, text)

    # -- formulas
    def And(self, *xs):
        return V.and_(*xs)

    def Or(self, *xs):
        return V.or_(*xs)

    def Not(self, x):
        return V.not_(x)

    def Implies(self, a, b):
        return V.or_(V.not_(a), b)

    def If(self, c, a, b):
        return V.ite_int(c, a, b)

    def eq(self, a, b):
        return M.eq(a, b)

    def one_of(self, ch, chars):
        """ch (one character) is in the concrete set chars, as a formula."""
        return M.contains(ch, chars)

    # -- verdicts
    def assume(self, cond):
        if isinstance(cond, V.SymBool):
            E.CUR.assume(cond.e)
        elif not cond:
            E.CUR.stop("assumption")

    def check(self, cond, msg):
        if isinstance(cond, V.SymBool):
            E.CUR.check(cond.e, msg)
        else:
            E.CUR.check(bool(cond), msg)

    def fail(self, msg):
        E.CUR.check(False, msg)

    def cover(self, label):
        E.CUR.covers[label] = E.CUR.covers.get(label, 0) + 1

    def observe(self, label, value):
        E.CUR.observations.append((label, value))

    def note(self, label):
        E.CUR.notes[label] = E.CUR.notes.get(label, 0) + 1


def freeze(v, m):
    """Concrete, JSON-able image of an observed value under model m."""
    if isinstance(v, V.SymSeq):
        cs = [c if isinstance(c, int) else m.eval(c, model_completion=True).as_long() for c in v.chars]
        return ["s", "".join(map(chr, cs))] if v.kind == "str" else ["b", cs]
    if isinstance(v, V.SymInt):
        return m.eval(v.e, model_completion=True).as_long()
    if isinstance(v, V.SymBool):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, str):
        return ["s", v]
    if isinstance(v, (bytes, bytearray)):
        return ["b", list(v)]
    if isinstance(v, M.SBytearray):
        return freeze(V.mkseq("bytes", v.chars), m)
    if isinstance(v, (bool, int, type(None), float)):
        return v
    if isinstance(v, (list, tuple)):
        return [freeze(x, m) for x in v]
    if isinstance(v, dict):
        return [[freeze(k, m), freeze(x, m)] for k, x in v.items()]
    if isinstance(v, (set, frozenset)):
        return sorted([freeze(x, m) for x in v], key=repr)
    return ["o", type(v).__name__]
