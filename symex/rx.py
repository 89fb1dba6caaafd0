"""Backtracking regular-expression matcher over symbolic text.

Patterns are parsed by CPython's own re._parser; concrete subjects go to the real re
module.  Every character test forks the path, so a match result is exact per path.
"""
from __future__ import annotations

import re as _re
import re._constants as C
import re._parser as P

import z3

from . import engine as E
from .values import (
    Ranges,
    SymInt,
    SymSeq,
    _pred_ranges,
    ceq,
    concretise_seq,
    is_sym,
    kind_of,
    lift,
    mkseq,
    str_chars,
    test,
)

_CAT = {}


def category(cat, ascii_):
    key = (cat, ascii_)
    r = _CAT.get(key)
    if r is not None:
        return r
    name = str(cat)
    neg = "_NOT_" in name
    base = name.replace("_NOT_", "_")
    if ascii_:
        if base.endswith("DIGIT"):
            r = Ranges([(48, 57)])
        elif base.endswith("SPACE"):
            r = Ranges([(9, 13), (32, 32)])
        elif base.endswith("WORD"):
            r = Ranges([(48, 57), (65, 90), (95, 95), (97, 122)])
        else:
            r = Ranges([(10, 10)])
    else:
        if base.endswith("DIGIT"):
            r = _pred_ranges("isdecimal")
        elif base.endswith("SPACE"):
            r = _pred_ranges("isspace")
        elif base.endswith("WORD"):
            r = _pred_ranges("isalnum").union(Ranges([(95, 95)]))
        else:
            r = Ranges([(10, 10)])
    if neg:
        r = r.invert()
    _CAT[key] = r
    return r


def _casefold_ranges(r):
    out = list(r.r)
    for lo, hi in r.r:
        for a, b, d in ((65, 90, 32), (97, 122, -32)):
            x, y = max(lo, a), min(hi, b)
            if x <= y:
                out.append((x + d, y + d))
        if lo <= 0x17F and hi > 127 and hi - lo < 400:
            for c in range(max(lo, 128), min(hi, 0x17F) + 1):
                for m in (chr(c).lower(), chr(c).upper()):
                    if len(m) == 1:
                        out.append((ord(m), ord(m)))
    return Ranges(out)


class Matcher:
    def __init__(self, chars, kind, endpos):
        self.chars = chars
        self.kind = kind
        self.n = endpos

    def in_set(self, items, flags):
        ascii_ = self.kind == "bytes" or bool(flags & _re.ASCII)
        neg = False
        rs = []
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                rs.append((av, av))
            elif op is C.RANGE:
                rs.append(av)
            elif op is C.CATEGORY:
                rs.extend(category(av, ascii_).r)
            else:
                E.CUR.unsupported("regex set op %s" % op)
        r = Ranges(rs)
        if flags & _re.IGNORECASE:
            r = _casefold_ranges(r)
        return r.invert() if neg else r

    def m(self, seq, k, pos, groups, flags):
        """Yield (pos, groups) for every way seq[k:] matches from pos, in re order."""
        if k == len(seq):
            yield pos, groups
            return
        op, av = seq[k]
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if pos < self.n and self.char(op, av, self.chars[pos], flags):
                yield from self.m(seq, k + 1, pos + 1, groups, flags)
            return
        if op is C.AT:
            if self.at(av, pos, flags):
                yield from self.m(seq, k + 1, pos, groups, flags)
            return
        if op is C.SUBPATTERN:
            gid, add, dele, sub = av
            fl = (flags | add) & ~dele
            for p, g in self.m(sub, 0, pos, groups, fl):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (pos, p)
                    g["last"] = gid
                yield from self.m(seq, k + 1, p, g, flags)
            return
        if op is C.BRANCH:
            for alt in av[1]:
                for p, g in self.m(alt, 0, pos, groups, flags):
                    yield from self.m(seq, k + 1, p, g, flags)
            return
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            if op is C.MAX_REPEAT and len(sub) == 1 and sub[0][0] in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
                # single-character greedy repeat: scan, then give back
                sop, sav = sub[0]
                p = pos
                cnt = 0
                while cnt < hi and p < self.n and self.char(sop, sav, self.chars[p], flags):
                    p += 1
                    cnt += 1
                while cnt >= lo:
                    yield from self.m(seq, k + 1, p, groups, flags)
                    p -= 1
                    cnt -= 1
                return
            yield from self.rep(op, lo, hi, sub, seq, k, pos, groups, flags, 0, -1)
            return
        if op is C.ATOMIC_GROUP:
            for p, g in self.m(av, 0, pos, groups, flags):
                yield from self.m(seq, k + 1, p, g, flags)
                return
            return
        if op is C.GROUPREF:
            span = groups.get(av)
            if span is None:
                return
            a, b = span
            ln = b - a
            if pos + ln <= self.n:
                for i in range(ln):
                    if not test(ceq(self.chars[a + i], self.chars[pos + i])):
                        return
                yield from self.m(seq, k + 1, pos + ln, groups, flags)
            return
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            ok = None
            if direction < 0:
                lo, hi = sub.getwidth()
                if lo != hi:
                    E.CUR.unsupported("variable look-behind")
                if pos - lo >= 0:
                    for p, g in self.m(sub, 0, pos - lo, groups, flags):
                        ok = g
                        break
            else:
                for p, g in self.m(sub, 0, pos, groups, flags):
                    ok = g
                    break
            if (ok is not None) == (op is C.ASSERT):
                yield from self.m(seq, k + 1, pos, ok if ok is not None else groups, flags)
            return
        E.CUR.unsupported("regex op %s" % op)

    def rep(self, op, lo, hi, sub, seq, k, pos, groups, flags, count, lastpos):
        if op is C.MIN_REPEAT:
            if count >= lo:
                yield from self.m(seq, k + 1, pos, groups, flags)
            if count < hi and not (pos == lastpos and count >= lo):
                for p, g in self.m(sub, 0, pos, groups, flags):
                    yield from self.rep(op, lo, hi, sub, seq, k, p, g, flags, count + 1, pos)
            return
        if op is C.POSSESSIVE_REPEAT:
            while count < hi:
                nxt = None
                for p, g in self.m(sub, 0, pos, groups, flags):
                    nxt = (p, g)
                    break
                if nxt is None or nxt[0] == pos and count >= lo:
                    break
                pos, groups = nxt
                count += 1
            if count >= lo:
                yield from self.m(seq, k + 1, pos, groups, flags)
            return
        if count < hi and not (pos == lastpos and count >= lo):
            for p, g in self.m(sub, 0, pos, groups, flags):
                if p == pos and count >= lo:
                    continue
                yield from self.rep(op, lo, hi, sub, seq, k, p, g, flags, count + 1, pos)
        if count >= lo:
            yield from self.m(seq, k + 1, pos, groups, flags)

    def char(self, op, av, c, flags):
        if op is C.LITERAL:
            if flags & _re.IGNORECASE:
                return test(_casefold_ranges(Ranges([(av, av)])).test(c))
            return test(ceq(c, av))
        if op is C.NOT_LITERAL:
            if flags & _re.IGNORECASE:
                return not test(_casefold_ranges(Ranges([(av, av)])).test(c))
            return not test(ceq(c, av))
        if op is C.ANY:
            if flags & _re.DOTALL:
                return True
            return not test(ceq(c, 10))
        return test(self.in_set(av, flags).test(c))

    def at(self, where, pos, flags):
        if where is C.AT_BEGINNING:
            if flags & _re.MULTILINE and pos > 0:
                return test(ceq(self.chars[pos - 1], 10))
            return pos == 0
        if where is C.AT_BEGINNING_STRING:
            return pos == 0
        if where is C.AT_END_STRING:
            return pos == self.n
        if where is C.AT_END:
            if pos == self.n:
                return True
            if flags & _re.MULTILINE:
                return test(ceq(self.chars[pos], 10))
            return pos == self.n - 1 and test(ceq(self.chars[pos], 10))
        if where in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            w = category(C.CATEGORY_WORD, self.kind == "bytes" or bool(flags & _re.ASCII))
            a = pos > 0 and test(w.test(self.chars[pos - 1]))
            b = pos < self.n and test(w.test(self.chars[pos]))
            return (a != b) == (where is C.AT_BOUNDARY)
        E.CUR.unsupported("regex anchor %s" % where)


class SymMatch:
    def __init__(self, pat, text, spans, pos, endpos):
        self.re = pat
        self.string = text
        self._spans = spans
        self.pos = pos
        self.endpos = endpos
        self.lastindex = spans.get("last")
        self.lastgroup = {v: k for k, v in pat.groupindex.items()}.get(self.lastindex)

    def _gid(self, g):
        if isinstance(g, str):
            try:
                return self.re.groupindex[g]
            except KeyError:
                raise IndexError("no such group") from None
        if g > self.re.groups:
            raise IndexError("no such group")
        return g

    def _get(self, g, default=None):
        s = self._spans.get(self._gid(g))
        return default if s is None else self.string[s[0] : s[1]]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = tuple(self._get(g) for g in gs)
        return r[0] if len(r) == 1 else r

    def __getitem__(self, g):
        return self._get(g)

    def groups(self, default=None):
        return tuple(self._get(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._get(v, default) for k, v in self.re.groupindex.items()}

    def span(self, g=0):
        s = self._spans.get(self._gid(g))
        return (-1, -1) if s is None else s

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def expand(self, template):
        return expand(self.re, template, self)


def expand(pat, template, match):
    parts = P.parse_template(template, pat.real)
    out = None
    for p in parts:
        v = match.group(p) if isinstance(p, int) else p
        if v is None:
            continue
        out = v if out is None else out + v
    if out is None:
        return "" if kind_of(template) == "str" else b""
    return out


class SymPattern:
    """Wraps a real compiled pattern."""

    def __init__(self, real):
        self.real = real
        self.pattern = real.pattern
        self.flags = real.flags
        self.groups = real.groups
        self.groupindex = dict(real.groupindex)
        self._tree = None

    def __eq__(self, o):
        return isinstance(o, SymPattern) and self.real == o.real

    def __hash__(self):
        return hash(self.real)

    def __repr__(self):
        return repr(self.real)

    def __deepcopy__(self, memo):
        return self

    def tree(self):
        if self._tree is None:
            self._tree = P.parse(self.pattern, self.flags & ~_re.UNICODE if isinstance(self.pattern, bytes) else self.flags)
        return self._tree

    def _one(self, text, pos, endpos, mode, mpos=0):
        chars = text.chars
        n = len(chars) if endpos is None else min(len(chars), endpos)
        mt = Matcher(chars, text.kind, n)
        tree = self.tree()
        flags = self.flags
        starts = [pos] if mode != "search" else range(pos, n + 1)
        for s in starts:
            for p, g in mt.m(tree, 0, s, {}, flags):
                if mode == "fullmatch" and p != n:
                    continue
                if mode == "search" and p == s == mpos - 1:
                    continue
                g = dict(g)
                g[0] = (s, p)
                return SymMatch(self, text, g, pos, n)
        return None

    def _chk(self, text):
        k = kind_of(text)
        if k is None:
            raise TypeError("expected string or bytes-like object, got %r" % type(text).__name__)
        want = "bytes" if isinstance(self.pattern, bytes) else "str"
        if k != want:
            raise TypeError("cannot use a %s pattern on a %s-like object" % (want, k))

    def _do(self, mode, text, pos, endpos):
        if isinstance(text, SymSeq) and all(isinstance(c, int) for c in text.chars):
            text = mkseq(text.kind, text.chars)
        if not isinstance(text, SymSeq):
            return getattr(self.real, mode)(text, int(pos), *([] if endpos is None else [int(endpos)]))
        self._chk(text)
        return self._one(text, max(0, int(pos)), None if endpos is None else int(endpos), mode)

    def match(self, string, pos=0, endpos=None):
        return self._do("match", string, pos, endpos)

    def fullmatch(self, string, pos=0, endpos=None):
        return self._do("fullmatch", string, pos, endpos)

    def search(self, string, pos=0, endpos=None):
        return self._do("search", string, pos, endpos)

    def finditer(self, string, pos=0, endpos=None):
        if not isinstance(string, SymSeq):
            yield from self.real.finditer(string, pos, *([] if endpos is None else [endpos]))
            return
        self._chk(string)
        p = pos
        n = len(string) if endpos is None else endpos
        last_end = -1
        while p <= n:
            m = self._scan(string, p, n, last_end)
            if m is None:
                return
            yield m
            a, b = m.span()
            last_end = b if a == b else -1
            p = b

    def _scan(self, text, p, n, last_end):
        """search from p, not allowing an empty match at last_end."""
        mt = Matcher(text.chars, text.kind, n)
        for s in range(p, n + 1):
            for q, g in mt.m(self.tree(), 0, s, {}, self.flags):
                if q == s == last_end:
                    continue
                g = dict(g)
                g[0] = (s, q)
                return SymMatch(self, text, g, p, n)
        return None

    def findall(self, string, pos=0, endpos=None):
        if not isinstance(string, SymSeq):
            return self.real.findall(string, pos, *([] if endpos is None else [endpos]))
        out = []
        e = "" if string.kind == "str" else b""
        for m in self.finditer(string, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m._get(1, e))
            else:
                out.append(m.groups(e))
        return out

    def subn(self, repl, string, count=0):
        if not isinstance(string, SymSeq):
            if not is_sym(repl) and not callable(repl):
                return self.real.subn(repl, string, count)
            parts = self._sub_parts(repl, lift(string), count)
        else:
            parts = self._sub_parts(repl, string, count)
        chars, n = parts
        return mkseq(kind_of(string), chars), n

    def sub(self, repl, string, count=0):
        if not isinstance(string, SymSeq) and not is_sym(repl) and not callable(repl):
            return self.real.sub(repl, string, count)
        return self.subn(repl, string, count)[0]

    def _sub_parts(self, repl, text, count):
        if isinstance(repl, SymSeq):
            bs = ceq_any(repl, 92)
            if bs:
                repl = concretise_seq(repl, "re.sub template")
        out = []
        i = 0
        n = 0
        for m in self.finditer(text):
            if count and n >= count:
                break
            a, b = m.span()
            out.extend(text.chars[i:a])
            if callable(repl):
                r = repl(m)
            elif isinstance(repl, SymSeq):
                r = repl
            else:
                r = expand(self, repl, m)
            if r is not None:
                out.extend(str_chars(r))
            i = b
            n += 1
        out.extend(text.chars[i:])
        return out, n

    def split(self, string, maxsplit=0):
        if not isinstance(string, SymSeq):
            return self.real.split(string, maxsplit)
        out = []
        i = 0
        n = 0
        for m in self.finditer(string):
            if maxsplit and n >= maxsplit:
                break
            a, b = m.span()
            out.append(string[i:a])
            out.extend(m.groups())
            i = b
            n += 1
        out.append(string[i:])
        return out


def ceq_any(s, v):
    return any(test(ceq(c, v)) for c in s.chars)


class ReModule:
    """Replacement for the `re` module in instrumented code."""

    def __init__(self):
        for k in dir(_re):
            if not k.startswith("__") and k not in ("compile", "match", "fullmatch", "search", "finditer", "findall", "sub", "subn", "split", "escape"):
                setattr(self, k, getattr(_re, k))
        self._cache = {}

    def compile(self, pattern, flags=0):
        if isinstance(pattern, SymPattern):
            return pattern
        if isinstance(pattern, _re.Pattern):
            return SymPattern(pattern)
        if isinstance(pattern, SymSeq):
            pattern = concretise_seq(pattern, "re.compile")
        key = (pattern, int(flags))
        p = self._cache.get(key)
        if p is None:
            p = self._cache[key] = SymPattern(_re.compile(pattern, flags))
        return p

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)

    def finditer(self, p, s, flags=0):
        return self.compile(p, flags).finditer(s)

    def findall(self, p, s, flags=0):
        return self.compile(p, flags).findall(s)

    def sub(self, p, repl, s, count=0, flags=0):
        return self.compile(p, flags).sub(repl, s, count)

    def subn(self, p, repl, s, count=0, flags=0):
        return self.compile(p, flags).subn(repl, s, count)

    def split(self, p, s, maxsplit=0, flags=0):
        return self.compile(p, flags).split(s, maxsplit)

    def escape(self, s):
        if isinstance(s, SymSeq):
            special = [ord(c) for c in "()[]{}?*+-|^$\\.&~# \t\n\r\v\f"]
            from .values import ranges_of

            rg = ranges_of(special)
            out = []
            for c in s.chars:
                if test(rg.test(c)):
                    out.append(92)
                out.append(c)
            return mkseq(s.kind, out)
        return _re.escape(s)
