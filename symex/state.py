"""Module and class state of the code under test, put back before every path.

Every path is one fresh process: what an earlier path left in a module-level dict, list or set,
in a class attribute or in a global that was rebound must not reach the next one. Used by the symbolic runner and by the native replay.
"""
from __future__ import annotations

import collections
import contextlib
import sys
import types
import weakref

def _of(name, package):
    """Whether a module (or its instrumented twin) belongs to the package."""
    name = (name or "").removeprefix("sx.")
    return name == package or name.startswith(package + ".")


CONTAINERS = (dict, list, set, bytearray, collections.deque)
FIXED = (types.FunctionType, types.ModuleType, type, types.BuiltinFunctionType, property, classmethod, staticmethod)


class State:
    def __init__(self, package="starlette", raw=contextlib.nullcontext):
        self.raw = raw  # a context in which containers accept symbolic keys
        self.caches = []
        self.namespaces = []
        self.containers = []
        self.seen = set()
        for name, mod in sorted(sys.modules.items()):
            if mod is None or not _of(name, package):
                continue
            self._namespace(mod, vars(mod), name, package)

    def _namespace(self, owner, ns, modname, package):
        if id(owner) in self.seen:
            return
        self.seen.add(id(owner))
        plain = {k: v for k, v in ns.items() if not (k.startswith("__") and k.endswith("__")) and not k.startswith(("_sx_", "_abc_"))}
        self.namespaces.append((owner, plain))
        for k, v in plain.items():
            self._value(v, package)

    def _value(self, v, package):
        if id(v) in self.seen:
            return
        if callable(getattr(v, "cache_clear", None)) and not isinstance(v, type):
            self.seen.add(id(v))
            self.caches.append(v)
        elif isinstance(v, type):
            if _of(v.__module__, package):
                self._namespace(v, vars(v), v.__module__, package)
        elif isinstance(v, types.FunctionType):
            if _of(v.__module__, package):
                self.seen.add(id(v))
                for d in (v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()):
                    self._value(d, package)
                for c in v.__closure__ or ():
                    try:
                        self._value(c.cell_contents, package)
                    except ValueError:
                        pass
                if v.__dict__:
                    self._container(v.__dict__, package)
        elif isinstance(v, (weakref.WeakKeyDictionary, weakref.WeakValueDictionary)):
            self.seen.add(id(v))
            self._container(v.data, package)
        elif isinstance(v, CONTAINERS):
            self._container(v, package)
        elif isinstance(v, (classmethod, staticmethod)):
            self._value(v.__func__, package)
        elif isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                if f is not None:
                    self._value(f, package)
        elif not isinstance(v, FIXED) and _of(type(v).__module__, package) and hasattr(v, "__dict__"):
            self.seen.add(id(v))
            self._container(v.__dict__, package)

    def _container(self, c, package):
        if id(c) in self.seen:
            return
        self.seen.add(id(c))
        kept = list(dict.items(c)) if isinstance(c, dict) else list(c)
        self.containers.append((c, kept))
        for x in kept:
            if isinstance(c, dict):
                self._value(x[1], package)
            elif not isinstance(x, int):
                self._value(x, package)

    def restore(self):
        for f in self.caches:
            f.cache_clear()
        for c, kept in self.containers:
            if isinstance(c, dict):
                if len(c) == len(kept) and all(a is k and b is v for (a, b), (k, v) in zip(dict.items(c), kept)):
                    continue
                with self.raw():
                    dict.clear(c)
                    for k, v in kept:
                        dict.__setitem__(c, k, v)
            elif isinstance(c, set):
                if not c and not kept:
                    continue
                with self.raw():
                    c.clear()
                    c.update(kept)
            elif isinstance(c, collections.deque):
                c.clear()
                c.extend(kept)
            else:
                if len(c) == len(kept) and all(a is b for a, b in zip(c, kept)):
                    continue
                c[:] = kept
        for owner, plain in self.namespaces:
            ns = vars(owner)
            extra = [k for k in ns if k not in plain and not (k.startswith("__") and k.endswith("__")) and not k.startswith(("_sx_", "_abc_"))]
            for k in extra:
                if isinstance(ns[k], types.ModuleType):
                    continue  # a submodule imported on first use
                delattr(owner, k)
            for k, v in plain.items():
                if k not in ns or ns[k] is not v:
                    setattr(owner, k, v)
