"""Concrete replay of harnesses against the real, uninstrumented code.

Run under the application's own interpreter:  python native.py HARNESS.py FUNC JOBS.json OUT.json
Each job is the input vector of one solver model.
"""
import json
import os
import sys
import traceback

from state import State


class Stop(BaseException):
    pass


class ReplayMismatch(BaseException):
    pass


class S:
    symbolic = False

    def __init__(self, inputs, tier="quick"):
        self._in = list(inputs)
        self._i = 0
        self.tier = tier
        self.thorough = tier == "thorough"
        self.failed = []
        self.assumed_false = False
        self.observations = []

    def q(self, a, b):
        return b if self.thorough else a

    def _next(self, kind, name):
        if self._i >= len(self._in):
            raise ReplayMismatch("input %s %s beyond the recorded vector" % (kind, name))
        k, n, v = self._in[self._i]
        if k != kind or n != name:
            raise ReplayMismatch("asked for %s %s, recorded %s %s" % (kind, name, k, n))
        self._i += 1
        return v

    def int(self, name, lo=None, hi=None):
        return self._next("int", name)

    def bool(self, name):
        return self._next("bool", name)

    flag = bool

    def pick(self, name, lo, hi):
        return self._next("int", name)

    def choice(self, name, seq):
        return list(seq)[self._next("int", name)]

    def str(self, name, min=0, max=4, alphabet=None, exclude=None, ranges=None):
        if min != max:
            self._next("int", name + ".len")
        return self._next("str", name)

    def bytes(self, name, min=0, max=4, alphabet=None, exclude=None, ranges=None):
        if min != max:
            self._next("int", name + ".len")
        return bytes(self._next("bytes", name))

    _dir = []

    def file(self, name, text):
        if not self._dir:
            import atexit
            import shutil
            import tempfile

            self._dir.append(tempfile.mkdtemp())
            atexit.register(shutil.rmtree, self._dir[0], True)
        path = os.path.join(self._dir[0], name)
        with open(path, "w", newline="", encoding="utf-8") as f:
            f.write(text)
        return path

    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or b

    def If(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return a == b

    def one_of(self, ch, chars):
        return ch in chars

    def assume(self, cond):
        if not cond:
            self.assumed_false = True
            raise Stop

    def check(self, cond, msg):
        if not cond:
            self.failed.append(msg)
            raise Stop

    def fail(self, msg):
        self.check(False, msg)

    def cover(self, label):
        pass

    def note(self, label):
        pass

    def observe(self, label, value):
        self.observations.append([label, freeze(value)])


def freeze(v):
    if isinstance(v, str):
        return ["s", str(v)]
    if isinstance(v, (bytes, bytearray, memoryview)):
        return ["b", list(bytes(v))]
    if isinstance(v, (bool, int, type(None), float)):
        return v
    if isinstance(v, (list, tuple)):
        return [freeze(x) for x in v]
    if isinstance(v, dict):
        return [[freeze(k), freeze(x)] for k, x in v.items()]
    if isinstance(v, (set, frozenset)):
        return sorted([freeze(x) for x in v], key=repr)
    return ["o", type(v).__name__]


def main():
    harness, func, jobs, out = sys.argv[1:5]
    sys.path.insert(0, os.path.dirname(os.path.abspath(harness)))
    repo = os.environ.get("SX_REPO", "/repo")
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    import importlib.util

    import logging

    import hlib

    logging.disable(logging.CRITICAL)
    hlib.NATIVE = True
    spec = importlib.util.spec_from_file_location("harness_mod", harness)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    import starlette

    assert os.path.realpath(starlette.__file__).startswith(os.path.realpath(repo)), starlette.__file__
    with open(jobs) as f:
        js = json.load(f)
    res = []
    state = State()
    for job in js:
        state.restore()
        s = S(job["inputs"], job.get("tier", "quick"))
        s.restart = state.restore
        r = {"status": "ok"}
        try:
            getattr(mod, job.get("func", func))(s)
        except Stop:
            r["status"] = "failed" if s.failed else "assume"
            r["msgs"] = s.failed
        except ReplayMismatch as e:
            r["status"] = "mismatch"
            r["msgs"] = [str(e)]
        except BaseException as e:
            r["status"] = "exception"
            r["msgs"] = ["%s: %s" % (type(e).__name__, e)]
            r["tb"] = traceback.format_exc()
        r["observations"] = s.observations
        res.append(r)
    with open(out, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
