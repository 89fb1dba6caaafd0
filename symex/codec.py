"""Text codecs over symbolic sequences: latin-1, ascii, utf-8 (others concretise)."""
from __future__ import annotations

import z3

from . import engine as E
from .values import ceq, concretise_seq, mkchar, mkseq, test, wrapb, or_, not_


def norm(enc):
    if not isinstance(enc, str):
        enc = str(enc)
    e = enc.lower().replace("_", "-")
    return {
        "latin-1": "latin-1",
        "latin1": "latin-1",
        "iso-8859-1": "latin-1",
        "iso8859-1": "latin-1",
        "l1": "latin-1",
        "utf-8": "utf-8",
        "utf8": "utf-8",
        "ascii": "ascii",
        "us-ascii": "ascii",
    }.get(e, e)


def encode(s, encoding, errors):
    e = norm(encoding)
    if e in ("latin-1", "ascii"):
        lim = 256 if e == "latin-1" else 128
        out = []
        for i, c in enumerate(s.chars):
            ok = c < lim
            if test(ok):
                out.append(c)
            elif errors == "strict":
                raise UnicodeEncodeError(e, "?", 0, 1, "ordinal not in range(%d)" % lim)
            elif errors == "ignore":
                continue
            elif errors == "replace":
                out.append(63)
            else:
                return concretise_seq(s, "encode errors=%s" % errors).encode(encoding, errors)
        return mkseq("bytes", out)
    if e == "utf-8":
        out = []
        for c in s.chars:
            if isinstance(c, int):
                out.extend(chr(c).encode("utf-8", errors))
            elif test(c < 0x80):
                out.append(c)
            elif test(c < 0x800):
                out.extend(_split(c, [(0xC0, 0x20), (0x80, 0x40)]))
            elif test(c < 0x10000):
                if test(z3.And(c >= 0xD800, c <= 0xDFFF)):
                    out.extend(_surrogate(c, errors))
                    continue
                out.extend(_split(c, [(0xE0, 0x10), (0x80, 0x40), (0x80, 0x40)]))
            else:
                out.extend(_split(c, [(0xF0, 5), (0x80, 0x40), (0x80, 0x40), (0x80, 0x40)]))
        return mkseq("bytes", out)
    return concretise_seq(s, "codec %s" % e).encode(encoding, errors)


def _surrogate(c, errors):
    """The utf-8 encoding of a lone surrogate under an error handler."""
    if errors == "strict" or (errors == "surrogateescape" and not test(z3.And(c >= 0xDC80, c <= 0xDCFF))):
        raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
    if errors == "surrogateescape":
        return [mkchar(c - 0xDC00)]
    if errors == "surrogatepass":
        return _split(c, [(0xE0, 0x10), (0x80, 0x40), (0x80, 0x40)])
    if errors == "ignore":
        return []
    if errors == "replace":
        return [63]
    if errors == "backslashreplace":
        eng = E.CUR
        key = ("bsr", c.get_id())
        if key not in eng.memo:
            h = [z3.Int(eng.fresh_name("hex")) for _ in range(3)]
            eng.define(z3.And(c == 0xD000 + h[0] * 256 + h[1] * 16 + h[2], *[z3.And(x >= 0, x < 16) for x in h]))
            eng.memo[key] = (c, [mkchar(z3.If(x < 10, x + 48, x + 87)) for x in h])
        return list(b"\\ud") + eng.memo[key][1]
    return list(chr(E.CUR.concretise_int(c, "surrogate")).encode("utf-8", errors))


def _split(c, parts):
    """Bytes b_i with c = sum (b_i - base_i) * 64^k: fresh variables, so that decoding
    stays linear arithmetic."""
    eng = E.CUR
    key = ("u8", c.get_id(), len(parts))
    if key in eng.memo:
        return eng.memo[key][1]
    bs, conds, total = [], [], 0
    for base, size in parts:
        b = z3.Int(eng.fresh_name("u8"))
        conds += [b >= base, b < base + size]
        total = total * 64 + (b - base)
        bs.append(b)
    eng.define(z3.And(total == c, *conds))
    eng.memo[key] = (c, bs)
    return bs


def _rng(c, lo, hi):
    if isinstance(c, int):
        return lo <= c <= hi
    return z3.And(c >= lo, c <= hi)


def decode(b, encoding, errors):
    e = norm(encoding)
    if e == "latin-1":
        return mkseq("str", b.chars)
    if e == "ascii":
        out = []
        for c in b.chars:
            if test(c < 128):
                out.append(c)
            elif errors == "strict":
                raise UnicodeDecodeError("ascii", b"\xff", 0, 1, "ordinal not in range(128)")
            elif errors == "ignore":
                continue
            elif errors == "replace":
                out.append(0xFFFD)
            else:
                return concretise_seq(b, "decode errors=%s" % errors).decode(encoding, errors)
        return mkseq("str", out)
    if e != "utf-8":
        return concretise_seq(b, "codec %s" % e).decode(encoding, errors)
    out = []
    i = 0
    cs = b.chars
    n = len(cs)

    def bad(k):
        if errors in ("strict", "surrogatepass"):
            raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid start byte")
        if errors == "replace":
            out.append(0xFFFD)
        elif errors == "ignore":
            pass
        elif errors == "surrogateescape":
            for j in range(i, i + k):
                out.append(mkchar(0xDC00 + cs[j]))
        else:
            E.CUR.unsupported("utf-8 decode errors=%s" % errors)

    while i < n:
        c = cs[i]
        if test(c < 0x80):
            out.append(c)
            i += 1
            continue
        if test(c < 0xC2):
            bad(1)
            i += 1
            continue
        if test(c < 0xE0):
            if i + 1 < n and test(_rng(cs[i + 1], 0x80, 0xBF)):
                out.append(mkchar((c - 0xC0) * 64 + (cs[i + 1] - 0x80)))
                i += 2
            else:
                bad(1)
                i += 1
            continue
        if test(c < 0xF0):
            if test(ceq(c, 0xE0)):
                lo, hi = 0xA0, 0xBF
            elif errors != "surrogatepass" and test(ceq(c, 0xED)):
                lo, hi = 0x80, 0x9F
            else:
                lo, hi = 0x80, 0xBF
            if not (i + 1 < n and test(_rng(cs[i + 1], lo, hi))):
                bad(1)
                i += 1
            elif not (i + 2 < n and test(_rng(cs[i + 2], 0x80, 0xBF))):
                bad(2)
                i += 2
            else:
                out.append(mkchar((c - 0xE0) * 4096 + (cs[i + 1] - 0x80) * 64 + (cs[i + 2] - 0x80)))
                i += 3
            continue
        if test(c < 0xF5):
            if test(ceq(c, 0xF0)):
                lo, hi = 0x90, 0xBF
            elif test(ceq(c, 0xF4)):
                lo, hi = 0x80, 0x8F
            else:
                lo, hi = 0x80, 0xBF
            if not (i + 1 < n and test(_rng(cs[i + 1], lo, hi))):
                bad(1)
                i += 1
            elif not (i + 2 < n and test(_rng(cs[i + 2], 0x80, 0xBF))):
                bad(2)
                i += 2
            elif not (i + 3 < n and test(_rng(cs[i + 3], 0x80, 0xBF))):
                bad(3)
                i += 3
            else:
                out.append(
                    mkchar(
                        (c - 0xF0) * 262144
                        + (cs[i + 1] - 0x80) * 4096
                        + (cs[i + 2] - 0x80) * 64
                        + (cs[i + 3] - 0x80)
                    )
                )
                i += 4
            continue
        bad(1)
        i += 1
    return mkseq("str", out)
