"""Symbolic values: integers, booleans, and character sequences (str / bytes).

A sequence has a concrete length on every path; each element is either a Python int
or a z3 Int term.  Sequences without symbolic elements are always real str / bytes.
"""
from __future__ import annotations

import sys

import z3

from . import engine as E


def cur():
    return E.CUR


def is_sym(x):
    return isinstance(x, (SymSeq, SymInt, SymBool))


# ---------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.CUR.branch(self.e)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.And(self.e, o.e))
        if isinstance(o, bool):
            return self if o else False
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.Or(self.e, o.e))
        if isinstance(o, bool):
            return True if o else self
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, o.e if isinstance(o, SymBool) else z3.BoolVal(bool(o))))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, bool):
            return self if o else mkbool(z3.Not(self.e))
        if isinstance(o, (int, SymInt)):
            return self.as_int() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r)

    def as_int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __int__(self):
        return 1 if self else 0

    __index__ = __int__

    def __add__(self, o):
        return self.as_int() + o

    __radd__ = __add__

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return repr(bool(self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def zb(x):
    return x.e if isinstance(x, SymBool) else z3.BoolVal(bool(x))


def not_(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.e))
    return not x


def and_(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x.e)
        elif not x:
            return False
    if not out:
        return True
    return mkbool(out[0] if len(out) == 1 else z3.And(*out))


def or_(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x.e)
        elif x:
            return True
    if not out:
        return False
    return mkbool(out[0] if len(out) == 1 else z3.Or(*out))


# ---------------------------------------------------------------- integers
def zi(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def mkint(e):
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def ite_int(c, a, b):
    if not isinstance(c, SymBool):
        return a if c else b
    return SymInt(z3.If(c.e, zi(a), zi(b)))


def _num(o):
    return isinstance(o, (int, SymInt, SymBool)) and not isinstance(o, float)


class SymInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _bin(self, o, f):
        if not _num(o):
            if isinstance(o, float):
                return None
            return NotImplemented
        return mkint(f(self.e, zi(o)))

    def __add__(self, o):
        return mkint(self.e + zi(o)) if _num(o) else NotImplemented

    def __radd__(self, o):
        return mkint(zi(o) + self.e) if _num(o) else NotImplemented

    def __sub__(self, o):
        return mkint(self.e - zi(o)) if _num(o) else NotImplemented

    def __rsub__(self, o):
        return mkint(zi(o) - self.e) if _num(o) else NotImplemented

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple, SymSeq)):
            return o * int(self)
        return mkint(self.e * zi(o)) if _num(o) else NotImplemented

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def _divmod(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.e / o), mkint(self.e % o)
        if isinstance(o, int) and o < 0:
            q = (-self.e) / (-o)
            return mkint(q), mkint(self.e - q * o)
        oc = int(o)
        if oc == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return self._divmod(oc)

    def __floordiv__(self, o):
        return self._divmod(o)[0] if _num(o) else NotImplemented

    def __mod__(self, o):
        return self._divmod(o)[1] if _num(o) else NotImplemented

    def __divmod__(self, o):
        return self._divmod(o)

    def __rfloordiv__(self, o):
        return o // int(self)

    def __rmod__(self, o):
        return o % int(self)

    def __truediv__(self, o):
        return int(self) / o

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return int(self) & int(o)

    __rand__ = __and__

    def __or__(self, o):
        return int(self) | int(o)

    __ror__ = __or__

    def __eq__(self, o):
        return mkbool(self.e == zi(o)) if _num(o) else (False if not isinstance(o, float) else int(self) == o)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __lt__(self, o):
        return mkbool(self.e < zi(o)) if _num(o) else (int(self) < o if isinstance(o, float) else NotImplemented)

    def __le__(self, o):
        return mkbool(self.e <= zi(o)) if _num(o) else (int(self) <= o if isinstance(o, float) else NotImplemented)

    def __gt__(self, o):
        return mkbool(self.e > zi(o)) if _num(o) else (int(self) > o if isinstance(o, float) else NotImplemented)

    def __ge__(self, o):
        return mkbool(self.e >= zi(o)) if _num(o) else (int(self) >= o if isinstance(o, float) else NotImplemented)

    def __bool__(self):
        return E.CUR.branch(self.e != 0)

    def __int__(self):
        return E.CUR.concretise_int(self.e, "int")

    __index__ = __int__

    def __float__(self):
        return float(int(self))

    def __hash__(self):
        if _hash_ok[0]:
            return _serial()
        E.CUR.unsupported("hash of a symbolic int outside a modelled container")

    def bit_length(self):
        return int(self).bit_length()

    def digits(self):
        """str(self) as a sequence: forks on sign and digit count."""
        v = self
        if v < 0:
            return concat("-", (-v).digits()) if isinstance(-v, SymInt) else "-" + str(-v)
        n = 1
        while not (v < 10**n):
            n += 1
            if n > 30:
                E.CUR.incomplete["digits"] = 1
                E.CUR.stop("more than 30 digits")
        if n == 1:
            return mkseq("str", [mkchar(48 + v.e)])
        # digits as fresh variables tied to the value by a linear equation (unique)
        name = E.CUR.fresh_name("digits")
        ds = [z3.Int("%s.%d" % (name, k)) for k in range(n)]
        E.CUR.define(z3.And(*[z3.And(d >= 0, d <= 9) for d in ds], z3.Sum([d * 10**k for k, d in enumerate(ds)]) == v.e))
        return mkseq("str", [mkchar(48 + ds[k]) for k in range(n - 1, -1, -1)])

    def __str__(self):
        return str(int(self))

    def __repr__(self):
        return repr(int(self))

    def __format__(self, spec):
        return format(int(self), spec)

    def to_bytes(self, n, order="big"):
        return int(self).to_bytes(n, order)


_hash_ok = [False]


def _serial():
    E.CUR.serial += 1
    return E.CUR.serial * 7919 + 1_000_003


# ---------------------------------------------------------------- characters
def mkchar(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return e


def ceq(a, b):
    """Equality of two characters -> bool or z3 Bool."""
    if isinstance(a, int):
        if isinstance(b, int):
            return a == b
        return b == a
    if isinstance(b, int):
        return a == b
    if a.eq(b):
        return True
    return a == b


class Ranges:
    """A set of code points as sorted disjoint ranges."""

    __slots__ = ("r", "_set")

    def __init__(self, ranges):
        rs = sorted(ranges)
        out = []
        for lo, hi in rs:
            if lo > hi:
                continue
            if out and lo <= out[-1][1] + 1:
                out[-1][1] = max(out[-1][1], hi)
            else:
                out.append([lo, hi])
        self.r = tuple((a, b) for a, b in out)

    def __contains__(self, c):
        for lo, hi in self.r:
            if lo <= c <= hi:
                return True
        return False

    def invert(self, hi=0x10FFFF):
        out = []
        p = 0
        for a, b in self.r:
            if a > p:
                out.append((p, a - 1))
            p = b + 1
        if p <= hi:
            out.append((p, hi))
        return Ranges(out)

    def union(self, o):
        return Ranges(self.r + o.r)

    def test(self, c):
        if isinstance(c, int):
            return c in self
        parts = []
        for lo, hi in self.r:
            if lo == hi:
                parts.append(c == lo)
            elif lo == 0 and hi >= 0x10FFFF:
                return True
            elif lo == 0:
                parts.append(c <= hi)
            elif hi >= 0x10FFFF:
                parts.append(c >= lo)
            else:
                parts.append(z3.And(c >= lo, c <= hi))
        if not parts:
            return False
        return parts[0] if len(parts) == 1 else z3.Or(*parts)


def ranges_of(chars):
    return Ranges([(ord(c) if not isinstance(c, int) else c,) * 2 for c in chars])


_PRED = {}


def _pred_ranges(name):
    """Code points for which str.<name>() holds (computed once from the real str)."""
    r = _PRED.get(name)
    if r is None:
        out = []
        start = None
        f = getattr(str, name)
        for c in range(sys.maxunicode + 1):
            if f(chr(c)):
                if start is None:
                    start = c
            elif start is not None:
                out.append((start, c - 1))
                start = None
        if start is not None:
            out.append((start, sys.maxunicode))
        r = _PRED[name] = Ranges(out)
    return r


WS_BYTES = ranges_of(b" \t\n\r\x0b\x0c")
ASCII_UP = Ranges([(65, 90)])
ASCII_LO = Ranges([(97, 122)])
ASCII_DIG = Ranges([(48, 57)])


def pred_ranges(kind, name):
    if kind == "bytes":
        return {
            "isspace": WS_BYTES,
            "isdigit": ASCII_DIG,
            "isalpha": ASCII_UP.union(ASCII_LO),
            "isalnum": ASCII_UP.union(ASCII_LO).union(ASCII_DIG),
            "isupper": ASCII_UP,
            "islower": ASCII_LO,
        }[name]
    return _pred_ranges(name)


# simple case maps as piecewise offsets over 0..0x17F; other characters are forked
_CASE = {}


def _case_map(name):
    """[(lo, hi, delta)] for one-to-one mappings below 0x180, list of irregular chars, limit."""
    t = _CASE.get(name)
    if t is None:
        f = getattr(str, name)
        segs = []
        odd = []
        for c in range(0x180):
            m = f(chr(c))
            if len(m) != 1:
                odd.append(c)
                continue
            d = ord(m) - c
            if d == 0:
                continue
            if segs and segs[-1][1] == c - 1 and segs[-1][2] == d:
                segs[-1][1] = c
            else:
                segs.append([c, c, d])
        t = _CASE[name] = (segs, odd)
    return t


def case_char(kind, c, name):
    """Character(s) that c maps to under lower/upper/casefold: list of chars."""
    if isinstance(c, int):
        if kind == "bytes":
            return list(getattr(bytes([c]), "lower" if name == "casefold" else name)())
        return [ord(x) for x in getattr(chr(c), name)()]
    if kind == "bytes":
        if name == "upper":
            return [mkchar(z3.If(z3.And(c >= 97, c <= 122), c - 32, c))]
        return [mkchar(z3.If(z3.And(c >= 65, c <= 90), c + 32, c))]
    segs, odd = _case_map(name)
    ascii_ = E.CUR.branch(c < 128)
    if ascii_:
        if name == "upper":
            return [mkchar(z3.If(z3.And(c >= 97, c <= 122), c - 32, c))]
        return [mkchar(z3.If(z3.And(c >= 65, c <= 90), c + 32, c))]
    if odd and E.CUR.branch(z3.Or(*[c == o for o in odd])):
        v = E.CUR.concretise_int(c, "case")
        return [ord(x) for x in getattr(chr(v), name)()]
    if E.CUR.branch(c < 0x180):
        e = c
        for lo, hi, d in segs:
            if hi < 128:
                continue
            e = z3.If(c == lo if lo == hi else z3.And(c >= lo, c <= hi), c + d, e)
        return [mkchar(e)]
    v = E.CUR.concretise_int(c, "case of a character beyond U+017F")
    return [ord(x) for x in getattr(chr(v), name)()]


def str_chars(s):
    if isinstance(s, SymSeq):
        return s.chars
    if isinstance(s, str):
        return tuple(map(ord, s))
    return tuple(s)


def mkseq(kind, chars):
    """Normalise: all-concrete chars become a real str / bytes."""
    chars = tuple(chars)
    for c in chars:
        if not isinstance(c, int):
            return SymStr(chars) if kind == "str" else SymBytes(chars)
    return "".join(map(chr, chars)) if kind == "str" else bytes(chars)


def lift(x):
    """Real str/bytes (or symbolic) -> SymSeq view (not normalised)."""
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, str):
        return SymStr(tuple(map(ord, x)))
    if isinstance(x, (bytes, bytearray, memoryview)):
        return SymBytes(tuple(bytes(x)))
    raise TypeError("expected a sequence, got %s" % type(x).__name__)


def kind_of(x):
    if isinstance(x, SymSeq):
        return x.kind
    if isinstance(x, str):
        return "str"
    if isinstance(x, (bytes, bytearray, memoryview)):
        return "bytes"
    return None


def concat(*parts):
    k = kind_of(parts[0])
    out = []
    for p in parts:
        out.extend(str_chars(p))
    return mkseq(k, out)


def seq_eq(a, b):
    """-> bool or z3 Bool for two equal-kind sequences (char tuples)."""
    if len(a) != len(b):
        return False
    conj = []
    for x, y in zip(a, b):
        r = ceq(x, y)
        if r is False:
            return False
        if r is not True:
            conj.append(r)
    if not conj:
        return True
    return conj[0] if len(conj) == 1 else z3.And(*conj)


def wrapb(r):
    return r if isinstance(r, bool) else mkbool(r)


def test(r):
    """bool or z3 Bool -> bool, forking."""
    return r if isinstance(r, bool) else E.CUR.branch(r)


class SymSeq:
    __slots__ = ("chars",)
    kind = None

    def __init__(self, chars):
        self.chars = chars

    # -- construction of same-kind results
    def _mk(self, chars):
        return mkseq(self.kind, chars)

    def _arg(self, o):
        k = kind_of(o)
        if k != self.kind:
            raise TypeError("expected %s, got %s" % (self.kind, type(o).__name__))
        return str_chars(o)

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return len(self.chars) > 0

    def __iter__(self):
        if self.kind == "str":
            for c in self.chars:
                yield mkseq("str", (c,))
        else:
            for c in self.chars:
                yield mkint(c)

    def __getitem__(self, k):
        n = len(self.chars)
        if isinstance(k, slice):
            k = slice(*[None if v is None else clamp_index(v, n) for v in (k.start, k.stop, k.step)])
            return self._mk(self.chars[k])
        k = clamp_index(k, n)
        c = self.chars[k]
        return mkseq("str", (c,)) if self.kind == "str" else mkint(c)

    def __add__(self, o):
        if kind_of(o) != self.kind:
            if kind_of(o) is None:
                return NotImplemented
            raise TypeError("can't concat %s to %s" % (type(o).__name__, self.kind))
        return self._mk(self.chars + str_chars(o))

    def __radd__(self, o):
        if kind_of(o) != self.kind:
            if kind_of(o) is None:
                return NotImplemented
            raise TypeError("can't concat %s to %s" % (self.kind, type(o).__name__))
        return self._mk(str_chars(o) + self.chars)

    def __mul__(self, n):
        return self._mk(self.chars * int(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        from . import models

        return models.percent(self, args)

    def __rmod__(self, o):
        from . import models

        return models.percent(o, self)

    # -- comparison
    def eq(self, o):
        if kind_of(o) != self.kind:
            return False
        return wrapb(seq_eq(self.chars, str_chars(o)))

    def __eq__(self, o):
        return self.eq(o)

    def __ne__(self, o):
        return not_(self.eq(o))

    def _cmp(self, o, strict_lt, on_equal):
        if kind_of(o) != self.kind:
            return NotImplemented
        b = str_chars(o)
        for x, y in zip(self.chars, b):
            if test(ceq(x, y)):
                continue
            lt = x < y
            return test(lt if isinstance(lt, bool) else lt) == strict_lt
        la, lb = len(self.chars), len(b)
        if la == lb:
            return on_equal
        return (la < lb) == strict_lt

    def __lt__(self, o):
        return self._cmp(o, True, False)

    def __le__(self, o):
        return self._cmp(o, True, True)

    def __gt__(self, o):
        return self._cmp(o, False, False)

    def __ge__(self, o):
        return self._cmp(o, False, True)

    def __hash__(self):
        if _hash_ok[0]:
            return _serial()
        E.CUR.unsupported("hash of a symbolic %s outside a modelled container" % self.kind)

    # -- searching
    def _bounds(self, start, end):
        n = len(self.chars)
        start = 0 if start is None else clamp_index(start, n)
        end = n if end is None else clamp_index(end, n)
        if end > n:
            end = n
        if start < 0:
            start = max(0, start + n)
        if end < 0:
            end = max(0, end + n)
        return start, end

    def match_at(self, pat, i):
        if i < 0 or i + len(pat) > len(self.chars):
            return False
        return seq_eq(self.chars[i : i + len(pat)], pat)

    def _sub(self, o):
        if self.kind == "bytes" and isinstance(o, (int, SymInt)):
            return (o if isinstance(o, int) else o.e,)
        return self._arg(o)

    def contains(self, o):
        pat = self._sub(o)
        parts = []
        for i in range(len(self.chars) - len(pat) + 1):
            r = self.match_at(pat, i)
            if r is True:
                return True
            if r is not False:
                parts.append(r)
        if not parts:
            return False
        return mkbool(parts[0] if len(parts) == 1 else z3.Or(*parts))

    def __contains__(self, o):
        return bool(self.contains(o))

    def startswith(self, p, start=None, end=None):
        s, e = self._bounds(start, end)
        view = self.chars[s:e]
        if isinstance(p, tuple):
            return or_(*[SymSeq.startswith(_view(self.kind, view), x) for x in p])
        pat = self._arg(p)
        if s > len(self.chars) or len(pat) > len(view):
            return False
        return wrapb(seq_eq(view[: len(pat)], pat))

    def endswith(self, p, start=None, end=None):
        s, e = self._bounds(start, end)
        view = self.chars[s:e]
        if isinstance(p, tuple):
            return or_(*[SymSeq.endswith(_view(self.kind, view), x) for x in p])
        pat = self._arg(p)
        if len(pat) > len(view):
            return False
        return wrapb(seq_eq(view[len(view) - len(pat) :], pat))

    def find(self, p, start=None, end=None):
        pat = self._sub(p)
        s, e = self._bounds(start, end)
        if s > len(self.chars):
            return -1
        for i in range(s, e - len(pat) + 1):
            if test(self.match_at(pat, i)):
                return i
        return -1

    def rfind(self, p, start=None, end=None):
        pat = self._sub(p)
        s, e = self._bounds(start, end)
        for i in range(e - len(pat), s - 1, -1):
            if test(self.match_at(pat, i)):
                return i
        return -1

    def index(self, p, start=None, end=None):
        r = self.find(p, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, p, start=None, end=None):
        r = self.rfind(p, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, p, start=None, end=None):
        pat = self._sub(p)
        s, e = self._bounds(start, end)
        if not pat:
            return max(0, e - s + 1)
        n = 0
        i = s
        while i + len(pat) <= e:
            if test(self.match_at(pat, i)):
                n += 1
                i += len(pat)
            else:
                i += 1
        return n

    # -- splitting
    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._split_ws(maxsplit)
        pat = self._arg(sep)
        if not pat:
            raise ValueError("empty separator")
        out = []
        start = i = 0
        n = len(self.chars)
        while i + len(pat) <= n and (maxsplit < 0 or len(out) < maxsplit):
            if test(self.match_at(pat, i)):
                out.append(self._mk(self.chars[start:i]))
                i += len(pat)
                start = i
            else:
                i += 1
        out.append(self._mk(self.chars[start:]))
        return out

    def _is_ws(self, c):
        r = WS_BYTES if self.kind == "bytes" else pred_ranges("str", "isspace")
        return test(r.test(c))

    def _split_ws(self, maxsplit):
        out = []
        i, n = 0, len(self.chars)
        while True:
            while i < n and self._is_ws(self.chars[i]):
                i += 1
            if i >= n:
                return out
            if maxsplit >= 0 and len(out) >= maxsplit:
                j = n
                while j > i and self._is_ws(self.chars[j - 1]):
                    j -= 1
                out.append(self._mk(self.chars[i:j]))
                return out
            j = i
            while j < n and not self._is_ws(self.chars[j]):
                j += 1
            out.append(self._mk(self.chars[i:j]))
            i = j

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            E.CUR.unsupported("rsplit on whitespace with a limit")
        pat = self._arg(sep)
        out = []
        end = len(self.chars)
        i = end - len(pat)
        while i >= 0 and len(out) < maxsplit:
            if test(self.match_at(pat, i)):
                out.append(self._mk(self.chars[i + len(pat) : end]))
                end = i
                i -= len(pat)
            else:
                i -= 1
        out.append(self._mk(self.chars[:end]))
        return out[::-1]

    def splitlines(self, keepends=False):
        if self.kind == "str":
            brk = ranges_of("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
        else:
            brk = ranges_of(b"\n\r")
        out = []
        start = i = 0
        n = len(self.chars)
        while i < n:
            if test(brk.test(self.chars[i])):
                j = i + 1
                if test(ceq(self.chars[i], 13)) and j < n and test(ceq(self.chars[j], 10)):
                    j += 1
                out.append(self._mk(self.chars[start : j if keepends else i]))
                start = i = j
            else:
                i += 1
        if start < n:
            out.append(self._mk(self.chars[start:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        e = self._mk(())
        if i < 0:
            return (self._mk(self.chars), e, e)
        k = len(sep)
        return (self._mk(self.chars[:i]), self._mk(self.chars[i : i + k]), self._mk(self.chars[i + k :]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        e = self._mk(())
        if i < 0:
            return (e, e, self._mk(self.chars))
        k = len(sep)
        return (self._mk(self.chars[:i]), self._mk(self.chars[i : i + k]), self._mk(self.chars[i + k :]))

    # -- stripping
    def _strip_test(self, chars):
        if chars is None:
            return self._is_ws
        cs = self._arg(chars)
        if all(isinstance(c, int) for c in cs):
            rg = ranges_of(cs)
            return lambda c: test(rg.test(c))
        return lambda c: any(test(ceq(c, x)) for x in cs)

    def lstrip(self, chars=None):
        f = self._strip_test(chars)
        i = 0
        while i < len(self.chars) and f(self.chars[i]):
            i += 1
        return self._mk(self.chars[i:])

    def rstrip(self, chars=None):
        f = self._strip_test(chars)
        j = len(self.chars)
        while j > 0 and f(self.chars[j - 1]):
            j -= 1
        return self._mk(self.chars[:j])

    def strip(self, chars=None):
        f = self._strip_test(chars)
        i = 0
        j = len(self.chars)
        while i < j and f(self.chars[i]):
            i += 1
        while j > i and f(self.chars[j - 1]):
            j -= 1
        return self._mk(self.chars[i:j])

    def removeprefix(self, p):
        if test_any(self.startswith(p)):
            return self._mk(self.chars[len(p) :])
        return self._mk(self.chars)

    def removesuffix(self, p):
        if len(p) and test_any(self.endswith(p)):
            return self._mk(self.chars[: len(self.chars) - len(p)])
        return self._mk(self.chars)

    def replace(self, old, new, count=-1):
        pat = self._arg(old)
        rep = self._arg(new)
        out = []
        n = len(self.chars)
        if not pat:
            for k, c in enumerate(self.chars):
                if count < 0 or k < count:
                    out.extend(rep)
                out.append(c)
            if count < 0 or n < count:
                out.extend(rep)
            return self._mk(out)
        if len(pat) == 1 and len(rep) == 1 and count < 0:
            for c in self.chars:
                r = ceq(c, pat[0])
                if r is True:
                    out.append(rep[0])
                elif r is False:
                    out.append(c)
                else:
                    out.append(mkchar(z3.If(r, zc(rep[0]), zc(c))))
            return self._mk(out)
        i = 0
        done = 0
        while i < n:
            if (count < 0 or done < count) and test(self.match_at(pat, i)):
                out.extend(rep)
                i += len(pat)
                done += 1
            else:
                out.append(self.chars[i])
                i += 1
        return self._mk(out)

    # -- case and classes
    def _case(self, name):
        out = []
        for c in self.chars:
            out.extend(case_char(self.kind, c, name))
        return self._mk(out)

    def lower(self):
        return self._case("lower")

    def upper(self):
        return self._case("upper")

    def casefold(self):
        return self._case("casefold")

    def capitalize(self):
        if not self.chars:
            return self._mk(())
        a = case_char(self.kind, self.chars[0], "title" if self.kind == "str" else "upper")
        out = list(a)
        for c in self.chars[1:]:
            out.extend(case_char(self.kind, c, "lower"))
        return self._mk(out)

    def title(self):
        out = []
        prev = False
        alpha = pred_ranges(self.kind, "isalpha")
        for c in self.chars:
            out.extend(case_char(self.kind, c, "lower" if prev else ("title" if self.kind == "str" else "upper")))
            prev = test(alpha.test(c))
        return self._mk(out)

    def swapcase(self):
        E.CUR.unsupported("swapcase")

    def _all(self, name):
        if not self.chars:
            return False
        rg = pred_ranges(self.kind, name)
        return and_(*[wrapb(rg.test(c)) for c in self.chars])

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isspace(self):
        return self._all("isspace")

    def isprintable(self):
        if not self.chars:
            return True
        return self._all("isprintable")

    def isascii(self):
        return and_(*[wrapb(c < 128) for c in self.chars])

    def isidentifier(self):
        return concretise_seq(self, "isidentifier").isidentifier()

    def isupper(self):
        return self._cased("isupper", "islower")

    def islower(self):
        return self._cased("islower", "isupper")

    def _cased(self, a, b):
        ra, rb = pred_ranges(self.kind, a), pred_ranges(self.kind, b)
        if self.kind == "str":
            rb = rb.union(pred_ranges("str", "istitle"))
        some = or_(*[wrapb(ra.test(c)) for c in self.chars])
        none = and_(*[not_(wrapb(rb.test(c))) for c in self.chars])
        return and_(some, none)

    # -- padding
    def _pad(self, width, fill):
        n = clamp_index(width, 10**6) - len(self.chars)
        f = self._arg(fill) if fill is not None else (32,)
        return tuple(f) * max(0, n)

    def ljust(self, w, fill=None):
        return self._mk(self.chars + self._pad(w, fill))

    def rjust(self, w, fill=None):
        return self._mk(self._pad(w, fill) + self.chars)

    def zfill(self, w):
        if self.chars and test_any(or_(wrapb(ceq(self.chars[0], 43)), wrapb(ceq(self.chars[0], 45)))):
            pad = (48,) * max(0, int(w) - len(self.chars))
            return self._mk(self.chars[:1] + pad + self.chars[1:])
        return self._mk((48,) * max(0, int(w) - len(self.chars)) + self.chars)

    def join(self, items):
        out = []
        first = True
        for it in items:
            if kind_of(it) != self.kind:
                raise TypeError("sequence item: expected %s instance, %s found" % (self.kind, type(it).__name__))
            if not first:
                out.extend(self.chars)
            out.extend(str_chars(it))
            first = False
        return self._mk(out)

    def translate(self, table, *rest, delete=b""):
        if self.kind == "bytes":
            if rest:
                delete = rest[0]
            out = []
            rg = ranges_of(str_chars(delete)) if delete else None
            for c in self.chars:
                if rg is not None and test(rg.test(c)):
                    continue
                if table is None:
                    out.append(c)
                else:
                    out.append(table[c] if isinstance(c, int) else table_lookup(table, c))
            return self._mk(out)
        from . import models

        out = []
        for c in self.chars:
            if isinstance(c, int):
                out.extend(str_chars(chr(c).translate(table)))
                continue
            keys = list(table.keys()) if isinstance(table, dict) else None
            if keys is None:
                E.CUR.unsupported("translate with a non-dict table")
            if not test(ranges_of(keys).test(c)):
                out.append(c)
                continue
            octal = [k for k in keys if isinstance(k, int) and table[k] == "\\%03o" % k]
            if len(octal) > 8 and test(ranges_of(octal).test(c)):
                # linear digits: decoding "\ooo" stays linear arithmetic
                eng = E.CUR
                ds = [z3.Int(eng.fresh_name("oct")) for _ in range(3)]
                eng.define(z3.And(ds[0] * 64 + ds[1] * 8 + ds[2] == c, *[z3.And(d >= 0, d < 8) for d in ds]))
                out.extend([92] + [d + 48 for d in ds])
                continue
            v = E.CUR.concretise_int(c, "translate")
            out.extend(str_chars(chr(v).translate(table)))
        return self._mk(out)

    def format(self, *a, **k):
        from . import models

        return models.str_format(concretise_seq(self, "format string"), a, k)

    def format_map(self, m):
        from . import models

        return models.str_format(concretise_seq(self, "format string"), (), m)

    def expandtabs(self, n=8):
        E.CUR.unsupported("expandtabs")

    def __repr__(self):
        # only for diagnostics; modelled code goes through models.repr_
        return "<Sym%s %s>" % (self.kind, self.chars)

    def __str__(self):
        return concretise_seq(self, "native str()")

    def __format__(self, spec):
        if spec:
            return format(concretise_seq(self, "format"), spec)
        return concretise_seq(self, "native format()")


def table_lookup(table, c):
    e = z3.IntVal(table[-1] if not isinstance(table, bytes) else table[255])
    out = None
    # piecewise: group by delta
    segs = []
    for i, v in enumerate(table):
        d = v - i
        if segs and segs[-1][1] == i - 1 and segs[-1][2] == d:
            segs[-1][1] = i
        else:
            segs.append([i, i, d])
    out = c
    for lo, hi, d in segs:
        if d:
            out = z3.If(z3.And(c >= lo, c <= hi), c + d, out)
    return mkchar(out)


def zc(c):
    return z3.IntVal(c) if isinstance(c, int) else c


def test_any(x):
    return bool(x)


def _view(kind, chars):
    return SymStr(chars) if kind == "str" else SymBytes(chars)


def clamp_index(v, n):
    """Index/slice bound as a concrete int; symbolic ones fork, clamped to the sequence."""
    if isinstance(v, SymInt):
        if v < 0:
            if v < -n:
                return -n - 1
            return int(v)
        if v > n:
            return n + 1
        return int(v)
    return v.__index__() if not isinstance(v, int) else v


def concretise_seq(s, why):
    eng = E.CUR
    eng.concretised[why] = eng.concretised.get(why, 0) + 1
    out = []
    for c in s.chars:
        out.append(c if isinstance(c, int) else eng.concretise_int(c, why))
    return "".join(map(chr, out)) if s.kind == "str" else bytes(out)


class SymStr(SymSeq):
    __slots__ = ()
    kind = "str"

    def encode(self, encoding="utf-8", errors="strict"):
        from . import codec

        return codec.encode(self, encoding, errors)


class SymBytes(SymSeq):
    __slots__ = ()
    kind = "bytes"

    def decode(self, encoding="utf-8", errors="strict"):
        from . import codec

        return codec.decode(self, encoding, errors)

    def hex(self, *a):
        from . import models

        out = []
        for c in self.chars:
            out.extend(models.hex_digits(c, 2, False))
        return mkseq("str", out)

    def tobytes(self):
        return self


class StrBase(SymStr):
    """Stand-in base for classes of the code under test that derive from str."""

    def __new__(cls, value="", *a, **k):
        self = object.__new__(cls)
        SymSeq.__init__(self, str_chars(value))
        return self

    def __init__(self, *a, **k):
        pass

    def __hash__(self):
        if all(isinstance(c, int) for c in self.chars):
            return hash("".join(map(chr, self.chars)))
        return SymSeq.__hash__(self)

    def __str__(self):
        return mkseq("str", self.chars)

    def __repr__(self):
        return repr(mkseq("str", self.chars))
