"""Interception of calls and operators in instrumented code.

`call`, `getitem`, `contains`, ... behave exactly like the Python operation, except that
built-in operations on containers or text accept symbolic values.
"""
from __future__ import annotations

import builtins
import functools
import collections
import operator
import types

import z3

from . import engine as E
from . import values as V
from .rx import SymPattern
from .values import (
    StrBase,
    SymBool,
    SymBytes,
    SymInt,
    SymSeq,
    SymStr,
    and_,
    concat,
    concretise_seq,
    is_sym,
    kind_of,
    lift,
    mkbool,
    mkchar,
    mkint,
    mkseq,
    not_,
    or_,
    seq_eq,
    str_chars,
    test,
    wrapb,
)

MISSING = object()


# ---------------------------------------------------------------- equality / keys
def same(a, b):
    """Python equality as bool / SymBool, without forking where it can be helped."""
    if isinstance(a, SymSeq):
        return a.eq(b)
    if isinstance(b, SymSeq):
        return b.eq(a)
    if isinstance(a, (SymInt, SymBool)) or isinstance(b, (SymInt, SymBool)):
        r = a == b
        return r
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        return and_(*[same(x, y) for x, y in zip(a, b)])
    if type(a) is list and type(b) is list:
        if len(a) != len(b):
            return False
        return and_(*[same(x, y) for x, y in zip(a, b)])
    return a is b or a == b


def deep_sym(k):
    if is_sym(k):
        return True
    if type(k) is tuple:
        return any(deep_sym(x) for x in k)
    return False


def has_sym_key(d):
    for k in d:
        if is_sym(k) or type(k) is tuple and deep_sym(k):
            return True
    return False


def _find_key(d, key):
    """The stored key equal to key (forking), or MISSING."""
    big = len(d) > 24 and not has_sym_key(d)
    if big and isinstance(key, SymSeq):
        cands = [k for k in d if kind_of(k) == key.kind and len(k) == len(key)]
        conds = []
        live = []
        for k in cands:
            r = seq_eq(key.chars, str_chars(k))
            if r is True:
                return k
            if r is not False:
                conds.append(r)
                live.append(k)
        if not conds or not E.CUR.branch(z3.Or(*conds)):
            return MISSING
        for k, c in zip(live, conds):
            if E.CUR.branch(c):
                return k
        return MISSING
    if not deep_sym(key) and not big:
        # concrete key against a mix of keys: concrete ones are exact
        for k in d:
            if deep_sym(k):
                if bool(same(k, key)):
                    return k
            elif k is key or (type(k) is type(key) and k == key):
                return k
            elif k == key:
                return k
        return MISSING
    for k in d:
        if bool(same(k, key)):
            return k
    return MISSING


def _needs(d, key):
    return deep_sym(key) or has_sym_key(d)


class _hash:
    def __enter__(self):
        V._hash_ok[0] = True

    def __exit__(self, *a):
        V._hash_ok[0] = False


def _raw_get(d, stored):
    """Value stored under an identical key object of d."""
    for k, v in dict.items(d):
        if k is stored:
            return v
    raise AssertionError


def dict_get(d, key, default=MISSING):
    if not _needs(d, key):
        if default is MISSING:
            return dict.__getitem__(d, key)
        return dict.get(d, key, default)
    if isinstance(d, collections.defaultdict) and default is MISSING:
        k = _find_key(d, key)
        if k is MISSING:
            v = d.default_factory()
            dict_set(d, key, v)
            return v
        return _raw_get(d, k)
    k = _find_key(d, key)
    if k is MISSING:
        if default is MISSING:
            mf = getattr(type(d), "__missing__", None)
            if mf is not None:
                return mf(d, key)
            raise KeyError("<symbolic key>")
        return default
    return _raw_get(d, k)


def dict_has(d, key):
    if not _needs(d, key):
        return dict.__contains__(d, key)
    return or_(*[same(k, key) for k in d])


def dict_set(d, key, value):
    if not _needs(d, key):
        dict.__setitem__(d, key, value)
        return
    k = _find_key(d, key)
    if k is not MISSING:
        _replace(d, k, value)
        return
    if deep_sym(key) and getattr(type(d), "__missing__", None) is not None and not isinstance(d, collections.defaultdict):
        return  # memo table: recomputed instead of stored
    with _hash():
        dict.__setitem__(d, key, value)


def _replace(d, stored, value):
    """Overwrite the value of an existing (identical) key, keeping its position."""
    items = [(k, value if k is stored else v) for k, v in dict.items(d)]
    with _hash():
        dict.clear(d)
        for k, v in items:
            dict.__setitem__(d, k, v)


def _remove(d, stored):
    items = [(k, v) for k, v in dict.items(d) if k is not stored]
    with _hash():
        dict.clear(d)
        for k, v in items:
            dict.__setitem__(d, k, v)


def dict_del(d, key):
    if not _needs(d, key):
        dict.__delitem__(d, key)
        return
    k = _find_key(d, key)
    if k is MISSING:
        raise KeyError("<symbolic key>")
    _remove(d, k)


def dict_pop(d, key, default=MISSING):
    if not _needs(d, key):
        return dict.pop(d, key) if default is MISSING else dict.pop(d, key, default)
    k = _find_key(d, key)
    if k is MISSING:
        if default is MISSING:
            raise KeyError("<symbolic key>")
        return default
    v = _raw_get(d, k)
    _remove(d, k)
    return v


def dict_setdefault(d, key, default=None):
    k = _find_key(d, key)
    if k is not MISSING:
        return _raw_get(d, k)
    dict_set(d, key, default)
    return default


def dict_update(d, *args, **kw):
    if args:
        other = args[0]
        if hasattr(other, "keys"):
            for k in other.keys():
                dict_set(d, k, getitem(other, k) if not type(other) is dict else (_raw_get(other, k) if deep_sym(k) else other[k]))
        else:
            for k, v in other:
                dict_set(d, k, v)
    for k, v in kw.items():
        dict_set(d, k, v)


def new_dict(*args, **kw):
    d = {}
    dict_update(d, *args, **kw)
    return d


def dict_eq(a, b):
    if len(a) != len(b):
        return False
    conds = []
    for k, v in a.items():
        kk = _find_key(b, k)
        if kk is MISSING:
            return False
        conds.append(same(v, _raw_get(b, kk)))
    return and_(*conds)


# ---------------------------------------------------------------- sets
def set_has(s, x):
    if not deep_sym(x) and not has_sym_key(s):
        return x in s
    # merge integer / one-character members into ranges
    if isinstance(x, SymInt) and not has_sym_key(s):
        ints = [k for k in s if isinstance(k, int)]
        if ints and min(ints) >= 0:
            return wrapb(V.ranges_of(ints).test(x.e))
    if isinstance(x, SymSeq) and len(x) == 1 and not has_sym_key(s):
        ks = [str_chars(k)[0] for k in s if kind_of(k) == x.kind and len(k) == 1]
        return wrapb(V.ranges_of(ks).test(x.chars[0])) if ks else False
    return or_(*[same(k, x) for k in s])


def set_add(s, x):
    if not deep_sym(x) and not has_sym_key(s):
        set.add(s, x)
        return
    if bool(set_has(s, x)):
        return
    with _hash():
        set.add(s, x)


def new_set(items, cls=set):
    items = list(items)
    if not any(deep_sym(x) for x in items):
        return cls(items)
    s = set()
    for x in items:
        set_add(s, x)
    if cls is set:
        return s
    with _hash():
        return cls(s)


_SETS = (set, frozenset, type({}.keys()), type({}.items()))


def _symset(a, b):
    return isinstance(a, _SETS) and isinstance(b, _SETS) and (has_sym_key(a) or has_sym_key(b))


def _within(a, b):
    return and_(*[or_(*[same(x, y) for y in b]) for x in a])


_CMPS = {"Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}


def cmp(op, a, b):
    if isinstance(a, _SETS) and _symset(a, b):
        if op in ("Gt", "GtE"):
            a, b = b, a
        if op in ("Lt", "Gt") and len(a) >= len(b):
            return False
        return _within(a, b)
    return _CMPS[op](a, b)


_BOPS = {"BitOr": operator.or_, "BitAnd": operator.and_, "BitXor": operator.xor, "Sub": operator.sub}


def binop(op, a, b):
    if isinstance(a, _SETS) and _symset(a, b):
        cls = frozenset if isinstance(a, frozenset) else set
        if op == "BitOr":
            return new_set([*a, *b], cls)
        inb = [x for x in a if bool(or_(*[same(x, y) for y in b])) == (op == "BitAnd")]
        if op == "BitXor":
            inb += [y for y in b if not bool(or_(*[same(x, y) for x in a]))]
        return new_set(inb, cls)
    if isinstance(a, dict) and op == "BitOr" and isinstance(b, dict) and (has_sym_key(a) or has_sym_key(b)):
        out = new_dict(a)
        dict_update(out, b)
        return out
    return _BOPS[op](a, b)


def ibinop(op, a, b):
    if isinstance(a, set) and _symset(a, b):
        r = binop(op, a, b)
        with _hash():
            set.clear(a)
            for x in r:
                set.add(a, x)
        return a
    if isinstance(a, dict) and type(a).__ior__ is dict.__ior__ and op == "BitOr" and (has_sym_key(a) or has_sym_key(b)):
        dict_update(a, b)
        return a
    return _IOPS[op](a, b)


def set_remove(s, x, strict):
    for k in list(s):
        if bool(same(k, x)):
            rest = [j for j in s if j is not k]
            with _hash():
                set.clear(s)
                for j in rest:
                    set.add(s, j)
            return
    if strict:
        raise KeyError("<symbolic>")


# ---------------------------------------------------------------- operators
def getitem(o, k):
    t = type(o)
    if isinstance(o, SymSeq):
        return o[k]
    if isinstance(o, dict) and t.__getitem__ in (dict.__getitem__,) or t is collections.defaultdict:
        return dict_get(o, k)
    if t in (str, bytes, list, tuple, bytearray) or isinstance(o, (list, tuple, str, bytes)):
        if isinstance(k, SymInt):
            k = V.clamp_index(k, len(o))
        elif isinstance(k, slice) and (is_sym(k.start) or is_sym(k.stop) or is_sym(k.step)):
            n = len(o)
            k = slice(*[None if v is None else V.clamp_index(v, n) for v in (k.start, k.stop, k.step)])
    return o[k]


def setitem(o, k, v):
    if isinstance(o, dict) and type(o).__setitem__ is dict.__setitem__:
        dict_set(o, k, v)
        return
    if isinstance(o, list) and isinstance(k, SymInt):
        k = V.clamp_index(k, len(o))
    o[k] = v


def delitem(o, k):
    if isinstance(o, dict) and type(o).__delitem__ is dict.__delitem__:
        dict_del(o, k)
        return
    if isinstance(o, list) and isinstance(k, SymInt):
        k = V.clamp_index(k, len(o))
    del o[k]


_IOPS = {  # in-place operators
    "Add": operator.iadd,
    "Sub": operator.isub,
    "Mult": operator.imul,
    "Mod": operator.imod,
    "FloorDiv": operator.ifloordiv,
    "Div": operator.itruediv,
    "BitOr": operator.ior,
    "BitAnd": operator.iand,
    "BitXor": operator.ixor,
    "LShift": operator.ilshift,
    "RShift": operator.irshift,
    "Pow": operator.ipow,
}


def augitem(o, k, op, v):
    setitem(o, k, _IOPS[op](getitem(o, k), v))


def contains(x, c):
    """x in c"""
    t = type(c)
    if isinstance(c, SymSeq):
        return c.contains(x)
    if isinstance(c, str) or isinstance(c, bytes):
        if isinstance(x, SymSeq):
            if len(x) == 1 and kind_of(c) == x.kind:
                return wrapb(V.ranges_of(c).test(x.chars[0]))
            return lift(c).contains(x)
        if isinstance(x, SymInt):
            return wrapb(V.ranges_of(c).test(x.e))
        return x in c
    if isinstance(c, dict) and t.__contains__ is dict.__contains__:
        return dict_has(c, x)
    if isinstance(c, (set, frozenset)):
        return set_has(c, x)
    if t in _KEYS:
        if t is type({}.keys()):
            if deep_sym(x) or has_sym_key(c):
                return or_(*[same(k, x) for k in c])
            return x in c
        if t is type({}.values()) or deep_sym(x):
            return or_(*[same(k, x) for k in c])
        return or_(*[same(k, x) for k in c])
    if t in (list, tuple) or isinstance(c, (list, tuple, collections.deque)):
        if deep_sym(x) or any(deep_sym(k) for k in c):
            return or_(*[same(k, x) for k in c])
    if isinstance(c, range) and isinstance(x, SymInt):
        if c.step == 1:
            return and_(x >= c.start, x < c.stop)
        return or_(*[x == v for v in c])
    m = getattr(t, "__contains__", None)
    if m is not None and isinstance(m, types.FunctionType):
        return m(c, x)
    return x in c


_KEYS = (type({}.keys()), type({}.items()), type({}.values()))


def eq(a, b):
    ta, tb = type(a), type(b)
    if ta is dict and tb is dict:
        if has_sym_key(a) or has_sym_key(b):
            return dict_eq(a, b)
        return a == b
    if ta in (set, frozenset) and tb in (set, frozenset):
        if has_sym_key(a) or has_sym_key(b):
            return len(a) == len(b) and and_(*[set_has(b, x) for x in a])
        return a == b
    if (ta is tuple and tb is tuple) or (ta is list and tb is list):
        return same(a, b)
    if isinstance(a, _KEYS[:2]) and isinstance(b, _KEYS[:2]):
        return len(a) == len(b) and and_(*[or_(*[same(x, y) for y in b]) for x in a])
    return a == b


def ne(a, b):
    ta, tb = type(a), type(b)
    if ta in (dict, set, frozenset, tuple, list):
        return not_(eq(a, b))
    return a != b


def is_(a, b):
    if isinstance(a, SymBool) and isinstance(b, bool):
        return a == b
    if isinstance(b, SymBool) and isinstance(a, bool):
        return b == a
    return a is b


def percent(fmt, args):
    if isinstance(fmt, (int, SymInt)) or not (isinstance(fmt, (str, bytes)) or isinstance(fmt, SymSeq)):
        return operator.mod(fmt, args)
    k = kind_of(fmt)
    if isinstance(fmt, SymSeq):
        fmt = concretise_seq(fmt, "% format string")
    vals = args if isinstance(args, tuple) else (args,)
    if not any(_anysym(x) for x in (args.values() if isinstance(args, dict) else vals)):
        return fmt % args
    out = []
    i = 0
    n = 0
    f = fmt if k == "str" else fmt.decode("latin-1")
    while i < len(f):
        c = f[i]
        if c != "%":
            out.append(c if k == "str" else c.encode("latin-1"))
            i += 1
            continue
        j = i + 1
        name = None
        if f[j] == "(":
            e = f.index(")", j)
            name = f[j + 1 : e]
            j = e + 1
        spec = ""
        while f[j] in "-+ #0123456789.*":
            spec += f[j]
            j += 1
        conv = f[j]
        i = j + 1
        if conv == "%":
            out.append("%" if k == "str" else b"%")
            continue
        if name is not None:
            v = args[name]
        else:
            v = vals[n]
            n += 1
        if k == "bytes":
            if conv in "sb" and not spec:
                out.append(v)
                continue
            if conv == "d" and not spec:
                s = v.digits() if isinstance(v, SymInt) else b"%d" % v
                out.append(s.encode("ascii") if kind_of(s) == "str" else s)
                continue
            if conv in "xX" and isinstance(v, SymInt):
                s = format_value(v, spec + conv)
                out.append(s.encode("ascii"))
                continue
            E.CUR.unsupported("bytes %% conversion %r" % (spec + conv))
        if conv == "s":
            s = str_(v)
        elif conv == "r":
            s = repr_(v)
        elif conv in "di":
            s = format_value(v, spec + "d") if spec else (str_(v) if isinstance(v, (int, SymInt)) else "%d" % v)
            spec = ""
        elif conv in "xX":
            s = format_value(v, spec + conv)
            spec = ""
        else:
            s = ("%" + spec + conv) % (concrete(v, "%" + conv),)
            spec = ""
        if spec:
            s = format_value(s, spec.replace("-", "<") if spec.startswith("-") else ">" + spec)
        out.append(s)
    if not out:
        return "" if k == "str" else b""
    return concat(*out)


def _anysym(x):
    """Does formatting x meet a symbolic value?"""
    if is_sym(x):
        return True
    t = type(x)
    if t in (str, bytes, int, float, bool, type(None)):
        return False
    if t in (list, tuple, set, frozenset):
        return any(_anysym(y) for y in x)
    if t is dict:
        return any(_anysym(k) or _anysym(v) for k, v in x.items())
    # objects of instrumented classes may produce symbolic text
    return True


def mod(a, b):
    if isinstance(a, (str, bytes, SymSeq)):
        return percent(a, b)
    return a % b


def concrete(v, why):
    if isinstance(v, SymSeq):
        return concretise_seq(v, why)
    if isinstance(v, SymInt):
        E.CUR.concretised[why] = E.CUR.concretised.get(why, 0) + 1
        return int(v)
    if isinstance(v, SymBool):
        return bool(v)
    return v


# ---------------------------------------------------------------- text conversion
def str_(x=MISSING, *rest, **kw):
    if x is MISSING:
        return ""
    if rest or kw:
        enc = rest[0] if rest else kw.get("encoding", "utf-8")
        err = rest[1] if len(rest) > 1 else kw.get("errors", "strict")
        if isinstance(x, SymBytes):
            return x.decode(enc, err)
        return str(x, *rest, **kw)
    if isinstance(x, StrBase):
        f = type(x).__str__
        return f(x)
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymInt):
        return x.digits()
    if isinstance(x, SymBool):
        return "True" if x else "False"
    if isinstance(x, SymBytes):
        return repr_(x)
    t = type(x)
    f = t.__str__
    if isinstance(f, types.FunctionType):
        return f(x)
    if isinstance(x, BaseException):
        a = x.args
        if len(a) == 1 and _anysym(a[0]) and f in (Exception.__str__, BaseException.__str__):
            return str_(a[0])
        if f is KeyError.__str__ and len(a) == 1 and is_sym(a[0]):
            return repr_(a[0])
        return str(x)
    if f is object.__str__:
        return repr_(x)
    if t in (list, tuple, dict, set, frozenset):
        return repr_(x)
    return str(x)


def repr_(x):
    if isinstance(x, StrBase) and isinstance(type(x).__repr__, types.FunctionType) and type(x).__repr__ is not StrBase.__repr__:
        return type(x).__repr__(x)
    if isinstance(x, SymStr):
        return _repr_text(x.chars, "")
    if isinstance(x, SymBytes):
        return _repr_text(x.chars, "b")
    if isinstance(x, SymInt):
        return x.digits()
    if isinstance(x, SymBool):
        return "True" if x else "False"
    t = type(x)
    if t in (list, tuple, dict, set, frozenset) and _anysym(x):
        if t is dict:
            parts = [concat(repr_(k), ": ", repr_(v)) for k, v in x.items()]
            o, c = "{", "}"
        else:
            parts = [repr_(v) for v in x]
            o, c = {list: ("[", "]"), tuple: ("(", ")"), set: ("{", "}"), frozenset: ("frozenset({", "})")}[t]
            if t is tuple and len(x) == 1:
                c = ",)"
            if t is set and not x:
                return "set()"
            if t is frozenset and not x:
                return "frozenset()"
        return concat(o, join_(", ", parts), c)
    f = t.__repr__
    if isinstance(f, types.FunctionType):
        return f(x)
    if isinstance(x, BaseException) and any(_anysym(a) for a in x.args):
        return concat(t.__name__, repr_(x.args) if len(x.args) != 1 else concat("(", repr_(x.args[0]), ")"))
    return repr(x)


def _repr_text(chars, prefix):
    has_sq = any(test(V.ceq(c, 39)) for c in chars)
    quote = 39
    if has_sq and not any(test(V.ceq(c, 34)) for c in chars):
        quote = 34
    out = [quote]
    printable = V.pred_ranges("str", "isprintable") if not prefix else V.Ranges([(32, 126)])
    for c in chars:
        if isinstance(c, int):
            out.extend(_repr_char(c, quote, prefix))
        elif test(z3.Or(c == quote, c == 92)):
            out.extend([92, c])
        elif test(printable.test(c)):
            out.append(c)
        elif test(c < 256):
            if test(z3.Or(c == 9, c == 10, c == 13)):
                out.extend(_repr_char(E.CUR.concretise_int(c, "repr"), quote, prefix))
            else:
                out.extend([92, ord("x")])
                out.extend(hex_digits(c, 2, False))
        else:
            out.extend(_repr_char(E.CUR.concretise_int(c, "repr of a non-printable"), quote, prefix))
    out.append(quote)
    return concat(prefix, mkseq("str", out))


def _repr_char(c, quote, prefix):
    if c in (quote, 92):
        return [92, c]
    if c in (34, 39):
        return [c]
    r = repr(bytes([c]) if prefix else chr(c))[1 + len(prefix) : -1]
    return list(map(ord, r))


def hex_digits(c, width, upper):
    """width hex digits of a character / integer term."""
    out = []
    base = 55 if upper else 87
    if not isinstance(c, int) and width == 2:
        # a byte: two nibbles, linear
        eng = E.CUR
        key = ("hex", c.get_id())
        if key not in eng.memo:
            h, l = z3.Int(eng.fresh_name("nib")), z3.Int(eng.fresh_name("nib"))
            eng.define(z3.And(c == 16 * h + l, l >= 0, l < 16))
            eng.memo[key] = (c, h, l)
        _, h, l = eng.memo[key]
        return [mkchar(z3.If(d < 10, 48 + d, base + d)) for d in (h, l)]
    for k in range(width - 1, -1, -1):
        if isinstance(c, int):
            d = (c >> (4 * k)) & 15
            out.append(48 + d if d < 10 else base + d)
        else:
            d = (c / 16**k) % 16
            out.append(mkchar(z3.If(d < 10, 48 + d, base + d)))
    return out


def format_value(v, spec=""):
    if is_sym(spec):
        spec = concretise_seq(spec, "format spec")
    if isinstance(v, SymSeq):
        if not spec:
            return str_(v)
        import re as _re

        m = _re.fullmatch(r"(?:(.)?([<>^]))?(\d+)?(?:\.(\d+))?s?", spec, _re.S)
        if m:
            s = lift(str_(v))
            if m.group(4) is not None:
                s = lift(s[: int(m.group(4))])
            w = int(m.group(3) or 0)
            pad = max(0, w - len(s))
            fill = ord(m.group(1) or " ")
            al = m.group(2) or "<"
            left = 0 if al == "<" else pad if al == ">" else pad // 2
            return mkseq("str", (fill,) * left + tuple(s.chars) + (fill,) * (pad - left))
        return format(concretise_seq(v, "format"), spec)
    if isinstance(v, SymInt):
        if spec in ("", "d"):
            return v.digits()
        import re as _re

        m = _re.fullmatch(r"(0?)(\d*)([dxX])", spec)
        if m:
            width = int(m.group(2) or 0)
            if m.group(3) == "d":
                s = v.digits()
            else:
                if v < 0:
                    return format(int(v), spec)
                n = 1
                while not (v < 16**n):
                    n += 1
                hi = ()
                if n > 10:
                    top = E.CUR.concretise_int(v.e, "leading digits of a wide hex number", unit=16**8)
                    hi = tuple(map(ord, format(top, m.group(3))))
                    v = V.SymInt(v.e - top * 16**8)
                    n = 8
                name = E.CUR.fresh_name("hex")
                ds = [z3.Int("%s.%d" % (name, k)) for k in range(n)]
                E.CUR.define(z3.And(*[z3.And(d >= 0, d <= 15) for d in ds], z3.Sum([d * 16**k for k, d in enumerate(ds)]) == v.e))
                base = 55 if m.group(3) == "X" else 87
                s = mkseq("str", hi + tuple(mkchar(z3.If(d < 10, 48 + d, base + d)) for d in reversed(ds)))
            return lift(s).zfill(width) if m.group(1) else lift(s).rjust(width)
        return format(concrete(v, "format"), spec)
    if isinstance(v, SymBool):
        return format(bool(v), spec)
    f = type(v).__format__
    if isinstance(f, types.FunctionType):
        return f(v, spec)
    if f is object.__format__ and not spec:
        return str_(v)
    if not spec and type(v) in (list, tuple, dict, set, frozenset):
        return str_(v)
    return format(v, spec)


def fstr(*parts):
    """parts: str constants or (value, conversion, spec)."""
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == -2:  # within an exception whose text no property mentions
                v = "<repr>" if is_sym(v) else repr(v)
            elif conv == 115:
                v = str_(v)
            elif conv == 114:
                v = repr_(v)
            elif conv == 97:
                v = ascii(concrete(v, "!a"))
            out.append(format_value(v, spec))
        else:
            out.append(p)
    for o in out:
        if isinstance(o, SymSeq):
            return concat(*[x if kind_of(x) else x for x in out])
    return "".join(out)


def join_(sep, items):
    items = list(items)
    if isinstance(sep, SymSeq) or any(is_sym(x) for x in items):
        return lift(sep).join(items)
    return sep.join(items)


def str_format(fmt, args, kw):
    import string

    out = []
    auto = 0
    for lit, name, spec, conv in string.Formatter().parse(fmt):
        if lit:
            out.append(lit)
        if name is None:
            continue
        first, rest = _field_split(name)
        if first == "":
            v = args[auto]
            auto += 1
        elif isinstance(first, int):
            v = args[first]
        else:
            v = getitem(kw, first)
        for is_attr, i in rest:
            v = getattr(v, i) if is_attr else getitem(v, i)
        if spec and "{" in spec:
            spec = str_format(spec, args[auto:], kw)
        if conv == "r":
            v = repr_(v)
        elif conv == "s":
            v = str_(v)
        out.append(format_value(v, spec or ""))
    if not out:
        return ""
    return concat(*out)


def _field_split(name):
    import _string

    first, rest = _string.formatter_field_name_split(name)
    return first, list(rest)


# ---------------------------------------------------------------- builtin functions
def isinstance_(x, cls):
    if isinstance(x, (SymSeq, SymInt, SymBool)):
        for c in _flat(cls):
            if _sym_isinstance(x, c):
                return True
        return False
    cls2 = _swap_cls(cls)
    return isinstance(x, cls2)


def _flat(cls):
    if type(cls) is tuple:
        for c in cls:
            yield from _flat(c)
    elif isinstance(cls, types.UnionType):
        yield from _flat(cls.__args__)
    else:
        yield cls


def _swap_cls(cls):
    import re as _re

    out = []
    for c in _flat(cls):
        out.append(c)
        if c is _re.Pattern:
            out.append(SymPattern)
    return tuple(out)


def _sym_isinstance(x, c):
    if c is object:
        return True
    if isinstance(c, type) and issubclass(c, SymSeq):
        return isinstance(x, c)
    if isinstance(x, SymStr):
        base = str
    elif isinstance(x, SymBytes):
        base = bytes
    elif isinstance(x, SymInt):
        base = int
    else:
        base = bool
    try:
        return issubclass(base, c)
    except TypeError:
        return False


def issubclass_(a, b):
    if isinstance(a, type) and issubclass(a, StrBase):
        if issubclass(str, tuple(_flat(b))):
            return True
    return issubclass(a, tuple(_flat(b)))


def len_(x):
    f = type(x).__len__ if hasattr(type(x), "__len__") else None
    if isinstance(f, types.FunctionType):
        return f(x)
    return len(x)


def bool_(x=False):
    return builtins.bool(x)


def int_(x=0, base=MISSING):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x.as_int()
    if isinstance(x, SymSeq):
        return parse_int(x, 10 if base is MISSING else base)
    return int(x) if base is MISSING else int(x, base)


def parse_int(s, base):
    if base not in (10, 16, 8, 2):
        return int(concretise_seq(s, "int(base=%s)" % base), base)
    s = lift(s.strip())
    cs = list(s.chars)
    neg = False

    def bad():
        raise ValueError("invalid literal for int() with base %d: <symbolic>" % base)

    if not cs:
        bad()
    if test(V.ceq(cs[0], 45)):
        neg = True
        cs = cs[1:]
    elif test(V.ceq(cs[0], 43)):
        cs = cs[1:]
    if base == 16 and len(cs) >= 2 and test(V.ceq(cs[0], 48)) and (test(V.ceq(cs[1], 120)) or test(V.ceq(cs[1], 88))):
        cs = cs[2:]
        if cs and test(V.ceq(cs[0], 95)):
            cs = cs[1:]
    val = z3.IntVal(0)
    prev_digit = False
    if not cs:
        bad()
    for c in cs:
        if test(V.ceq(c, 95)):
            if not prev_digit:
                bad()
            prev_digit = False
            continue
        d = None
        hi = 48 + min(base, 10) - 1
        if isinstance(c, int):
            try:
                d = z3.IntVal(int(chr(c), base))
            except ValueError:
                bad()
        elif base <= 10 and test(z3.And(c >= 48, c <= hi)):
            d = c - 48
        elif base == 16 and test(V.Ranges([(48, 57), (65, 70), (97, 102)]).test(c)):
            d = z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))
        elif s.kind == "str" and test(c > 127) and test(V._pred_ranges("isdecimal").test(c)):
            v = E.CUR.concretise_int(c, "non-ASCII decimal digit")
            d = z3.IntVal(int(chr(v)))
        else:
            bad()
        prev_digit = True
        val = val * base + d
    if not prev_digit:
        bad()
    val = z3.simplify(val)
    return mkint(-val if neg else val)


def float_(x=0.0):
    return float(concrete(x, "float()"))


def ord_(c):
    if isinstance(c, SymSeq):
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        return mkint(c.chars[0])
    return ord(c)


def chr_(i):
    if isinstance(i, SymInt):
        if not (i >= 0 and i <= 0x10FFFF):
            raise ValueError("chr() arg not in range(0x110000)")
        return mkseq("str", (i.e,))
    return chr(i)


def bytes_(x=b"", *rest, **kw):
    if isinstance(x, SymStr):
        return x.encode(*(rest or ()), **kw)
    if isinstance(x, SymBytes):
        return x
    if isinstance(x, (list, tuple)) and any(isinstance(v, SymInt) for v in x):
        return mkseq("bytes", [v.e if isinstance(v, SymInt) else v for v in x])
    if isinstance(x, SBytearray):
        return mkseq("bytes", x.chars)
    if isinstance(x, SymInt):
        return bytes(int(x))
    f = getattr(type(x), "__bytes__", None)
    if isinstance(f, types.FunctionType):
        return f(x)
    if not isinstance(x, (str, bytes, bytearray, memoryview, int)) and hasattr(x, "__iter__"):
        x = list(x)
        if any(isinstance(v, SymInt) for v in x):
            return mkseq("bytes", [v.e if isinstance(v, SymInt) else v for v in x])
    return bytes(x, *rest, **kw)


class SBytearray:
    """Mutable byte buffer."""

    def __init__(self, chars=()):
        self.chars = tuple(chars)

    def _v(self):
        return SymBytes(self.chars)

    def __len__(self):
        return len(self.chars)

    def __iter__(self):
        return iter(self._v())

    def __getitem__(self, k):
        r = self._v()[k]
        return SBytearray(str_chars(r)) if isinstance(k, slice) else r

    def __setitem__(self, k, v):
        l = list(self.chars)
        if isinstance(k, slice):
            l[k] = list(_bchars(v))
        else:
            l[int(k)] = v.e if isinstance(v, SymInt) else v
        self.chars = tuple(l)

    def __delitem__(self, k):
        l = list(self.chars)
        del l[k]
        self.chars = tuple(l)

    def extend(self, o):
        self.chars = self.chars + tuple(_bchars(o))

    def append(self, o):
        self.chars = self.chars + (o.e if isinstance(o, SymInt) else o,)

    def clear(self):
        self.chars = ()

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        return SBytearray(self.chars + tuple(_bchars(o)))

    def __eq__(self, o):
        return wrapb(seq_eq(self.chars, _bchars(o)))

    def __ne__(self, o):
        return not_(self == o)

    def __contains__(self, o):
        return o in self._v()

    def __getattr__(self, name):
        f = getattr(self._v(), name)
        return f

    __hash__ = None


def _bchars(o):
    if isinstance(o, SBytearray):
        return o.chars
    if isinstance(o, (bytes, bytearray, memoryview, SymBytes)):
        return str_chars(o)
    return tuple(v.e if isinstance(v, SymInt) else v for v in o)


def bytearray_(x=b"", *rest):
    if isinstance(x, (SymBytes, SBytearray)):
        return SBytearray(_bchars(x))
    if isinstance(x, SymStr):
        return SBytearray(str_chars(x.encode(*rest)))
    if isinstance(x, (int, SymInt)):
        return SBytearray((0,) * int(x))
    if isinstance(x, str):
        return SBytearray(x.encode(*rest))
    return SBytearray(_bchars(x))


def list_(x=()):
    return list(x)


def tuple_(x=()):
    return tuple(x)


def sorted_(it, *, key=None, reverse=False):
    it = list(it)
    if key is None:
        return sorted(it, reverse=reverse)
    return sorted(it, key=key, reverse=reverse)


def _minmax(f, lt):
    def g(*args, **kw):
        if len(args) > 1 and not kw and any(isinstance(a, SymInt) for a in args):
            r = args[0]
            for a in args[1:]:
                c = (a < r) if lt else (a > r)
                r = V.ite_int(c, a, r) if isinstance(c, SymBool) else (a if c else r)
            return r
        return f(*args, **kw)

    return g


def range_(*a):
    return range(*[int(v) if isinstance(v, SymInt) else v for v in a])


def type_(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, StrBase):
            return type(x)
        if isinstance(x, SymStr):
            return str
        if isinstance(x, SymBytes):
            return bytes
        if isinstance(x, SymInt):
            return int
        if isinstance(x, SymBool):
            return bool
        return type(x)
    return type(*a)


def any_(it):
    for x in it:
        if x:
            return True
    return False


def all_(it):
    for x in it:
        if not x:
            return False
    return True


def getattr_(o, name, *d):
    if isinstance(name, SymSeq):
        # the names an object answers to are enumerable: fork over them
        names = [n for n in dir(o)]
        for n in names:
            if len(n) == len(name) and bool(name.eq(n)):
                return getattr(o, n)
        if isinstance(o, types.ModuleType) is False and hasattr(type(o), "__getattr__"):
            return type(o).__getattr__(o, name)
        if d:
            return d[0]
        raise AttributeError("<symbolic attribute>")
    return getattr(o, name, *d)


def hasattr_(o, name):
    if isinstance(name, SymSeq):
        try:
            getattr_(o, name)
            return True
        except AttributeError:
            return False
    return hasattr(o, name)


def setattr_(o, name, v):
    if isinstance(name, SymSeq):
        name = concretise_seq(name, "setattr")
    setattr(o, name, v)


def hash_(x):
    if is_sym(x):
        E.CUR.unsupported("hash()")
    return hash(x)


def dict_(*a, **k):
    if a and isinstance(a[0], dict) and not k and type(a[0]) is dict:
        return dict(a[0])
    return new_dict(*a, **k)


def set_(x=()):
    return new_set(x)


def frozenset_(x=()):
    return new_set(x, frozenset)


def map_(f, *its):
    return (call(f, *a) for a in zip(*its))


def filter_(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if call(f, x))


def print_(*a, **k):
    return None


BUILTIN = {
    isinstance: isinstance_,
    issubclass: issubclass_,
    len: len_,
    str: str_,
    repr: repr_,
    int: int_,
    float: float_,
    ord: ord_,
    chr: chr_,
    bytes: bytes_,
    bytearray: bytearray_,
    dict: dict_,
    set: set_,
    frozenset: frozenset_,
    sorted: sorted_,
    min: _minmax(min, True),
    max: _minmax(max, False),
    range: range_,
    type: type_,
    any: any_,
    all: all_,
    getattr: getattr_,
    hasattr: hasattr_,
    setattr: setattr_,
    hash: hash_,
    map: map_,
    filter: filter_,
    format: format_value,
    str.__new__: lambda cls, *a, **k: StrBase.__new__(cls, *a, **k) if issubclass(cls, StrBase) else str.__new__(cls, *a, **k),
    dict.fromkeys: lambda it, v=None: new_dict([(k, v) for k in it]),
    str.join: lambda s, it: join_(s, it),
}
EXTRA = {}  # native callable -> model, filled by shims

SAFE_LIST = {"append", "extend", "insert", "pop", "clear", "copy", "reverse", "sort", "__iter__", "__len__", "__setitem__", "__getitem__", "appendleft", "popleft", "extendleft", "rotate"}


def _method(f, self, name, args, kw):
    """Call of built-in method `name` bound to the native object `self`; returns MISSING
    when the native call is fine as it is."""
    if isinstance(self, str) or isinstance(self, (bytes,)):
        if name == "join":
            return join_(self, args[0])
        if name == "format_map" and isinstance(self, str):
            return str_format(self, (), args[0])
        if name == "format" and isinstance(self, str):
            if any(_anysym(a) for a in args) or any(_anysym(a) for a in kw.values()):
                return str_format(self, args, kw)
            return MISSING
        for a in args:
            if is_sym(a) or type(a) is tuple and deep_sym(a) or isinstance(a, SBytearray):
                return getattr(lift(self), name)(*args, **kw)
        for a in kw.values():
            if is_sym(a):
                return getattr(lift(self), name)(*args, **kw)
        if name == "translate" and isinstance(self, str):
            return MISSING
        return MISSING
    if isinstance(self, dict):
        if name in ("get", "__getitem__", "__contains__", "__setitem__", "__delitem__", "pop", "setdefault"):
            if not args or not _needs(self, args[0]):
                return MISSING
            return {
                "get": lambda k, d=None: dict_get(self, k, d),
                "__getitem__": lambda k: dict_get(self, k),
                "__contains__": lambda k: dict_has(self, k),
                "__setitem__": lambda k, v: dict_set(self, k, v),
                "__delitem__": lambda k: dict_del(self, k),
                "pop": lambda k, d=MISSING: dict_pop(self, k, d),
                "setdefault": lambda k, d=None: dict_setdefault(self, k, d),
            }[name](*args, **kw)
        if name in ("update", "__init__"):
            dict_update(self, *args, **kw)
            return None
        if name == "__eq__" and args and isinstance(args[0], dict):
            return dict_eq(self, args[0])
        if name in ("__or__", "__ior__"):
            pass
        return MISSING
    if isinstance(self, (set, frozenset)):
        symb = has_sym_key(self) or any(deep_sym(a) for a in args) or any(
            not is_sym(a) and isinstance(a, (list, tuple, set, frozenset)) and any(deep_sym(x) for x in a) for a in args
        ) or any(isinstance(a, types.GeneratorType) for a in args)
        if not symb:
            return MISSING
        if name == "add":
            return set_add(self, *args)
        if name in ("update", "union", "__or__", "__ior__"):
            if name == "update" or name == "__ior__":
                for a in args:
                    for x in a:
                        set_add(self, x)
                return None
            out = new_set(self)
            for a in args:
                for x in a:
                    set_add(out, x)
            return out
        if name == "__contains__":
            return set_has(self, *args)
        if name in ("remove", "discard"):
            return set_remove(self, args[0], name == "remove")
        if name in ("issubset", "__le__"):
            return _within(self, list(args[0]))
        if name in ("__lt__", "__gt__", "__ge__"):
            return cmp({"__lt__": "Lt", "__gt__": "Gt", "__ge__": "GtE"}[name], self, args[0])
        if name in ("__and__", "__sub__", "__xor__"):
            return binop({"__and__": "BitAnd", "__sub__": "Sub", "__xor__": "BitXor"}[name], self, args[0])
        if name == "symmetric_difference":
            return binop("BitXor", self, new_set(args[0]))
        if name in ("intersection_update", "difference_update", "symmetric_difference_update"):
            ibinop({"i": "BitAnd", "d": "Sub", "s": "BitXor"}[name[0]], self, new_set(args[0]))
            return None
        if name == "issuperset":
            return and_(*[set_has(self, x) for x in args[0]])
        if name in ("intersection", "difference"):
            out = self
            for a in args:
                out = binop("BitAnd" if name == "intersection" else "Sub", out, new_set(a))
            return new_set(out)
        if name == "isdisjoint":
            return not_(or_(*[set_has(self, x) for x in args[0]]))
        if name in ("copy", "__iter__", "__len__", "clear", "pop"):
            return MISSING
        E.CUR.unsupported("set.%s on symbolic values" % name)
    if isinstance(self, list):
        if name in ("index", "count", "remove") and (deep_sym(args[0]) or any(deep_sym(x) for x in self)):
            return MISSING  # element-wise == forks natively
        if name in ("pop", "insert") and args and isinstance(args[0], SymInt):
            return f(V.clamp_index(args[0], len(self)), *args[1:])
        return MISSING
    return MISSING


_BASES = (dict, str, bytes, set, frozenset, list)


def call(f, /, *args, **kw):
    tf = type(f)
    if tf is types.FunctionType or tf is types.MethodType:
        r = EXTRA.get(f) if EXTRA else None
        if r is not None:
            return r(*args, **kw)
        return f(*args, **kw)
    if tf is type:
        m = BUILTIN.get(f)
        if m is not None:
            return m(*args, **kw)
        m = EXTRA.get(f)
        if m is not None:
            return m(*args, **kw)
        return f(*args, **kw)
    if tf is types.BuiltinFunctionType or tf is types.MethodWrapperType:
        try:
            m = BUILTIN.get(f) or EXTRA.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(*args, **kw)
        self = f.__self__
        if self is not None and not isinstance(self, types.ModuleType):
            if tf is types.MethodWrapperType and isinstance(self, type):
                return f(*args, **kw)
            r = _method(f, self, f.__name__, args, kw)
            if r is not MISSING:
                return r
            return f(*args, **kw)
        for a in args:
            if is_sym(a) and not _passthrough(f):
                return f(*[concrete(x, "native %s" % f.__name__) for x in args], **kw)
        return f(*args, **kw)
    if tf is functools.partial:
        return call(f.func, *f.args, *args, **{**f.keywords, **kw})
    if tf in (types.MethodDescriptorType, types.WrapperDescriptorType):
        m = BUILTIN.get(f) or EXTRA.get(f)
        if m is not None:
            return m(*args, **kw)
        if args and f.__objclass__ in _BASES:
            a0 = args[0]
            if isinstance(a0, SymSeq):
                return getattr(a0, f.__name__)(*args[1:], **kw)
            r = _method(lambda *a, **k: f(a0, *a, **k), a0, f.__name__, args[1:], kw)
            if r is not MISSING:
                return r
        return f(*args, **kw)
    return f(*args, **kw)


_PASS = {"id", "iter", "next", "callable", "print", "reversed", "zip", "enumerate", "sum", "abs", "divmod", "setattr", "cast", "deepcopy", "copy", "len", "partial", "reduce", "delattr", "vars", "dir", "put", "put_nowait", "create_task", "_asdict", "__new__", "pow"}


def _passthrough(f):
    return f.__name__ in _PASS


def mkdict(pairs):
    """Dict display with computed keys. pairs: (key, value) or (None-marker, mapping)."""
    d = {}
    for p in pairs:
        if len(p) == 1:
            dict_update(d, p[0])
        else:
            dict_set(d, p[0], p[1])
    return d


def kwcall_merge(*ms):
    return ms
