"""Environment of the instrumented code: which libraries are executed symbolically from
source, and which are replaced by stand-ins.  Every entry here is part of the claim."""
from __future__ import annotations

import functools
import io
import os
import sys
import sysconfig
import types

import z3

from . import engine as E
from . import loader as L
from . import models as M
from . import values as V
from .rx import ReModule

STDLIB = sysconfig.get_paths()["stdlib"]


def module_like(real, **over):
    m = types.ModuleType(real.__name__)
    m.__dict__.update({k: v for k, v in vars(real).items() if k not in ("__loader__", "__spec__")})
    m.__dict__.update(over)
    return m


def _key_same(x, y):
    """Whether two arguments are the same key; symbolic ones only if they are the same terms."""
    if x is y:
        return True
    if isinstance(x, V.SymSeq) or isinstance(y, V.SymSeq):
        if type(x) is not type(y) or x.kind != y.kind or len(x.chars) != len(y.chars):
            return False
        return all(_key_same(a, b) for a, b in zip(x.chars, y.chars))
    if isinstance(x, V.SymInt) or isinstance(y, V.SymInt):
        return isinstance(x, V.SymInt) and isinstance(y, V.SymInt) and x.e.eq(y.e)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_key_same(a, b) for a, b in zip(x, y))
    if hasattr(x, "eq") and hasattr(x, "sexpr") or hasattr(y, "eq") and hasattr(y, "sexpr"):
        return hasattr(x, "sexpr") and hasattr(y, "sexpr") and bool(x.eq(y))
    return (x == y) is True


class PathCache:
    """A function cache that lasts for the path being executed (as if the process had just started)."""

    def __init__(self, f):
        self.f = f
        functools.update_wrapper(self, f)
        self.__wrapped__ = f

    def __call__(self, *a, **k):
        eng = E.CUR
        memo = getattr(eng, "memo", None)
        if memo is None:
            return self.f(*a, **k)
        for x in a + tuple(k.values()):
            if isinstance(x, (list, dict, set, bytearray)):
                raise TypeError("unhashable type: '%s'" % type(x).__name__)
        entries = memo.setdefault(("cache", id(self)), [])
        key = (a, tuple(sorted(k.items())))
        for other, r in entries:
            if _key_same(key, other):
                return r
        r = self.f(*a, **k)
        entries.append((key, r))
        return r

    def __get__(self, obj, owner=None):
        return self if obj is None else types.MethodType(self, obj)

    def cache_clear(self):
        memo = getattr(E.CUR, "memo", None)
        if memo is not None:
            memo.pop(("cache", id(self)), None)

    def cache_info(self):
        return None


def _identity_cache(*a, **k):
    def deco(f):
        if getattr(f, "__module__", "").startswith("starlette"):
            return PathCache(f)
        _cachefuncs(f)
        return f

    if len(a) == 1 and callable(a[0]) and not k:
        return deco(a[0])
    return deco


def _cachefuncs(f):
    try:
        f.cache_clear = lambda: None
        f.cache_info = lambda: None
    except AttributeError:
        pass


class HexTable:
    """urllib.parse's lazily built {b'41': b'A', ...} table, as a predicate and arithmetic."""

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def __contains__(self, k):
        try:
            self[k]
            return True
        except KeyError:
            return False

    def __getitem__(self, k):
        cs = V.str_chars(k)
        if len(cs) != 2:
            raise KeyError(k)
        v = 0
        for c in cs:
            v = v * 16 + self._dig(c)
        return V.mkseq("bytes", [V.mkchar(v) if not isinstance(v, int) else v])

    def _dig(self, c):
        if isinstance(c, int):
            ch = chr(c)
            if ch not in "0123456789abcdefABCDEF":
                raise KeyError
            return int(ch, 16)
        if not E.CUR.branch(V.Ranges([(48, 57), (65, 70), (97, 102)]).test(c)):
            raise KeyError
        return z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))


class TextInput:
    """io.StringIO over symbolic text, for reading."""

    def __init__(self, text):
        self.text, self.pos = text, 0

    def read(self, n=-1):
        a = self.pos
        self.pos = len(self.text) if n is None or n < 0 else min(a + n, len(self.text))
        return self.text[a : self.pos]

    def readline(self):
        a = self.pos
        while self.pos < len(self.text):
            self.pos += 1
            if self.text[self.pos - 1] == "\n":
                break
        return self.text[a : self.pos]

    def close(self):
        pass


def string_io(initial_value="", newline="\n"):
    if M.is_sym(initial_value):
        return TextInput(initial_value)
    return io.StringIO(initial_value, newline)


def install():
    M.EXTRA[io.StringIO] = string_io
    for p in ("starlette",):
        L.INSTRUMENT_PREFIXES[p] = L.REPO
    for p in ("python_multipart",):
        L.INSTRUMENT_PREFIXES[p] = L.SITE
    for p in ("urllib.parse", "http.cookies", "posixpath", "shlex", "html", "genericpath", "uuid"):
        L.INSTRUMENT_PREFIXES[p] = STDLIB
    L.SHIMS["re"] = ReModule()
    ft = module_like(functools, lru_cache=_identity_cache, cache=_identity_cache)
    L.SHIMS["functools"] = ft

    def post_urllib(m):
        m._hextobyte = HexTable()

    L.POST["urllib.parse"] = post_urllib
    import urllib as _urllib

    u = types.ModuleType("urllib")
    u.__path__ = []
    L.SHIMS["urllib"] = u
    import http as _http

    h = module_like(_http)
    h.__path__ = []
    L.SHIMS["http"] = h
    # os / os.path: the pure-Python posixpath, executed symbolically
    real_os = os

    def make_os():
        pp = L.load("posixpath")
        o = module_like(real_os, path=pp)
        o.environ = real_os.environ
        return o, pp

    o = module_like(real_os)
    L.SHIMS["os"] = o
    pp = L.load("posixpath")
    o.path = pp
    L.SHIMS["os.path"] = pp
    L.TABLE["os.path"] = pp
    # os.fspath on symbolic text
    real_fspath = os.fspath

    def fspath(p):
        if isinstance(p, (V.SymStr, V.SymBytes)):
            return p
        return real_fspath(p)

    o.fspath = fspath
    pp.os = o
    M.EXTRA[real_fspath] = fspath
    install_posix(pp)
    import dataclasses

    def field(**kw):
        if kw.get("default_factory") is bytearray:
            kw["default_factory"] = M.SBytearray
        return dataclasses.field(**kw)

    M.EXTRA[dataclasses.field] = field
    import binascii

    M.EXTRA[binascii.hexlify] = lambda b, *a: V.mkseq("bytes", sum([M.hex_digits(c, 2, False) for c in V.str_chars(b)], []))


def install_posix(pp):
    # 3.12's posixpath.normpath is the C function posix._path_normpath; use the
    # documented pure-Python definition that CPython ships as its fallback.
    src = '''
def normpath(path):
    """Normalize path, eliminating double slashes, etc."""
    path = _fspath(path)
    if isinstance(path, bytes):
        sep = b'/'
        empty = b''
        dot = b'.'
        dotdot = b'..'
    else:
        sep = '/'
        empty = ''
        dot = '.'
        dotdot = '..'
    if not path:
        return dot
    initial_slashes = 0
    if path.startswith(sep):
        initial_slashes = 2 if path.startswith(sep * 2) and not path.startswith(sep * 3) else 1
    path = path[initial_slashes:]
    comps = path.split(sep)
    new_comps = []
    for comp in comps:
        if not comp or comp == dot:
            continue
        if (comp != dotdot or (not initial_slashes and not new_comps) or
                (new_comps and new_comps[-1] == dotdot)):
            new_comps.append(comp)
        elif new_comps:
            new_comps.pop()
    comps = new_comps
    path = sep.join(comps)
    if initial_slashes:
        path = sep*initial_slashes + path
    return path or dot
'''
    ns = pp.__dict__
    ns["_fspath"] = L.SHIMS["os"].fspath
    exec(L.compile_source(src, "<posixpath.normpath>", "posixpath", False), ns)
