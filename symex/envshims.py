"""Stand-ins for the environment of the symbolically executed code.  Every entry is an
assumption of the claim; native replay uses the real thing."""
import contextvars
import email.utils
import hashlib
import logging
import mimetypes
import os
import sysconfig
import tempfile

import z3

from . import engine as E
from . import loader as L
from . import models as M
from . import values as V


class SpooledTemporaryFile:
    """tempfile.SpooledTemporaryFile in binary mode, over symbolic bytes."""

    def __init__(self, max_size=0, mode="w+b", *a, **k):
        assert mode == "w+b"
        self._max_size = max_size
        self._rolled = False
        self._chars = []
        self._pos = 0
        self.closed = False

    def _open(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def write(self, data):
        self._open()
        new = list(V.str_chars(data))
        if self._pos > len(self._chars):
            self._chars.extend([0] * (self._pos - len(self._chars)))
        self._chars[self._pos:self._pos + len(new)] = new
        self._pos += len(new)
        if self._max_size and self._pos > self._max_size:
            self._rolled = True
        return len(new)

    def read(self, size=-1):
        self._open()
        n = int(size)
        end = len(self._chars) if n < 0 else self._pos + n
        out = self._chars[self._pos:end]
        self._pos += len(out)
        return V.mkseq("bytes", out)

    def seek(self, offset, whence=0):
        self._open()
        base = (0, self._pos, len(self._chars))[whence]
        self._pos = base + int(offset)
        return self._pos

    def tell(self):
        self._open()
        return self._pos

    def rollover(self):
        self._rolled = True

    def close(self):
        self.closed = True


class Digest:
    """A hash of symbolic bytes: an unknown 32-digit value, the same for equal inputs and
    different for different ones (collisions are assumed away)."""

    digest_size = 16
    block_size = 64
    name = "md5"

    def __init__(self, data=b"", **k):
        self._data = data

    def update(self, data):
        self._data = self._data + data if self._data else data

    def hexdigest(self):
        eng = E.CUR
        cs = V.str_chars(self._data)
        if all(isinstance(c, int) for c in cs):
            return hashlib.md5(bytes(cs), usedforsecurity=False).hexdigest()
        known = eng.memo.setdefault("digests", [])
        for old, out in known:
            if len(old) == len(cs) and all(x is y or (isinstance(x, int) and isinstance(y, int) and x == y) or (not isinstance(x, int) and not isinstance(y, int) and x.eq(y)) for x, y in zip(old, cs)):
                return V.mkseq("str", out)
        n = 6
        name = eng.fresh_name("md5")
        digits = tuple(z3.Int("%s.%d" % (name, i)) for i in range(n))
        out = digits + (ord("f"),) * (32 - n)
        eng.define(z3.And(*[z3.Or(z3.And(d >= 48, d <= 57), z3.And(d >= 97, d <= 102)) for d in digits]))
        for old, o in known:
            same = z3.And(*[x == y for x, y in zip(o[:n], digits)])
            if len(old) == len(cs):
                eq = z3.And(*[x == y for x, y in zip(old, cs) if not (isinstance(x, int) and isinstance(y, int))], *[z3.BoolVal(x == y) for x, y in zip(old, cs) if isinstance(x, int) and isinstance(y, int)])
                eng.define(same == eq)
            else:
                eng.define(z3.Not(same))
        known.append((cs, out))
        return V.mkseq("str", out)

    def digest(self):
        E.CUR.unsupported("raw digest of symbolic bytes")


def install_hashlib():
    m = type(hashlib)("hashlib")
    m.__dict__.update({k: v for k, v in vars(hashlib).items() if k not in ("__loader__", "__spec__")})

    def wrap(name):
        real = getattr(hashlib, name)

        def make(data=b"", **k):
            if V.is_sym(data):
                return Digest(data)
            return real(data, **k)

        return make

    for name in ("md5", "sha1", "sha256"):
        setattr(m, name, wrap(name))
    L.SHIMS["hashlib"] = m


class BytesIO:
    """io.BytesIO over symbolic bytes."""

    def __init__(self, initial=b""):
        self._chars = list(V.str_chars(initial))
        self._pos = 0
        self.closed = False

    def _open(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def write(self, data):
        self._open()
        new = list(V.str_chars(data))
        if self._pos > len(self._chars):
            self._chars.extend([0] * (self._pos - len(self._chars)))
        self._chars[self._pos:self._pos + len(new)] = new
        self._pos += len(new)
        return len(new)

    def getvalue(self):
        self._open()
        return V.mkseq("bytes", self._chars)

    def read(self, size=-1):
        self._open()
        n = -1 if size is None else int(size)
        end = len(self._chars) if n < 0 else self._pos + n
        out = self._chars[self._pos:end]
        self._pos += len(out)
        return V.mkseq("bytes", out)

    def readline(self, size=-1):
        self._open()
        out = []
        while self._pos < len(self._chars) and (size < 0 or len(out) < size):
            c = self._chars[self._pos]
            self._pos += 1
            out.append(c)
            if (c == 10) if isinstance(c, int) else E.CUR.branch(c == 10):
                break
        return V.mkseq("bytes", out)

    def readlines(self, hint=-1):
        out = []
        while True:
            line = self.readline()
            if not len(line):
                return out
            out.append(line)

    def __iter__(self):
        return iter(self.readlines())

    def seek(self, offset, whence=0):
        self._open()
        base = (0, self._pos, len(self._chars))[whence]
        self._pos = base + int(offset)
        return self._pos

    def tell(self):
        self._open()
        return self._pos

    def truncate(self, size=None):
        self._open()
        n = self._pos if size is None else int(size)
        del self._chars[n:]
        return n

    def flush(self):
        self._open()

    def close(self):
        self.closed = True

    def __enter__(self):
        self._open()
        return self

    def __exit__(self, *a):
        self.close()


class GzipFile:
    """gzip.GzipFile for writing, with an invertible stand-in for deflate: blocks of
    [1, length, complemented bytes] and a trailer [0, sum, length].  When a block is put out
    is decided by the module's SCHEDULE (the write calls that flush what is pending)."""

    def __init__(self, filename=None, mode=None, compresslevel=9, fileobj=None, mtime=None):
        assert mode in ("wb", "w") and fileobj is not None
        self.fileobj = fileobj
        self._pending = []
        self._all = []
        self._writes = 0
        self.closed = False
        xfl = 2 if compresslevel == 9 else 4 if compresslevel == 1 else 0
        fileobj.write(bytes([0x1F, 0x8B, 8, 0]) + GZIP_TIME.to_bytes(4, "little") + bytes([xfl, 255]))

    def _emit(self):
        out = []
        while self._pending:
            part = self._pending[:255]
            del self._pending[:255]
            out += [1, len(part)] + [255 - c for c in part]
        if out:
            self.fileobj.write(V.mkseq("bytes", out))

    def write(self, data):
        if self.closed:
            raise ValueError("write() on closed GzipFile object")
        cs = list(V.str_chars(data))
        self._pending += cs
        self._all += cs
        if self._writes in L.SHIMS["gzip"].SCHEDULE:
            self._emit()
        self._writes += 1
        return len(cs)

    def flush(self, mode=None):
        self._emit()

    def close(self):
        if self.closed:
            return
        self.closed = True
        self._emit()
        total = 0
        for c in self._all:
            total = total + c
        self.fileobj.write(V.mkseq("bytes", [0, total % 256, len(self._all) % 256]))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


GZIP_TIME = 1700000000


def gunzip(data):
    import gzip

    cs = V.str_chars(data)

    def want(i, v):
        if i >= len(cs):
            raise EOFError("Compressed file ended before the end-of-stream marker was reached")
        c = cs[i]
        if isinstance(c, int) and not hasattr(v, "sort"):
            return c == v
        return E.CUR.branch(z3.simplify(c == v) if not isinstance(c, bool) else c)

    if not (want(0, 0x1F) and want(1, 0x8B) and want(2, 8)):
        raise gzip.BadGzipFile("Not a gzipped file")
    out, i = [], 10
    while want(i, 1):
        n = cs[i + 1]
        if not isinstance(n, int):
            n = V.SymInt(n).__index__()
        if i + 2 + n > len(cs):
            raise EOFError("Compressed file ended before the end-of-stream marker was reached")
        out += [255 - c for c in cs[i + 2:i + 2 + n]]
        i += 2 + n
    total = 0
    for c in out:
        total = total + c
    if not (want(i, 0) and want(i + 1, total % 256) and want(i + 2, len(out) % 256)):
        raise gzip.BadGzipFile("CRC check failed")
    if i + 3 != len(cs):
        raise gzip.BadGzipFile("trailing data")
    return V.mkseq("bytes", [z3.simplify(c) if not isinstance(c, int) else c for c in out])


def install_io():
    import gzip
    import io

    m = type(io)("io")
    m.__dict__.update({k: v for k, v in vars(io).items() if k not in ("__loader__", "__spec__")})
    m.BytesIO = BytesIO
    L.SHIMS["io"] = m
    g = type(io)("gzip")
    g.__dict__.update({k: v for k, v in vars(gzip).items() if k not in ("__loader__", "__spec__")})
    g.GzipFile = GzipFile
    g.decompress = gunzip
    g.SCHEDULE = ()

    def compress(data, compresslevel=9, *, mtime=None):
        buf = BytesIO()
        with GzipFile(mode="wb", compresslevel=compresslevel, fileobj=buf) as f:
            f.write(data)
        return buf.getvalue()

    g.compress = compress
    L.SHIMS["gzip"] = g


class EscapeTable:
    """json.encoder.ESCAPE_DCT: the short escapes, and \\u00XX for other control characters."""

    SHORT = {34: '\\"', 92: "\\\\", 8: "\\b", 12: "\\f", 10: "\\n", 13: "\\r", 9: "\\t"}

    def __getitem__(self, ch):
        (c,) = V.str_chars(ch)
        for k, esc in self.SHORT.items():
            if (c == k) if isinstance(c, int) else E.CUR.branch(c == k):
                return esc
        if (c < 32) if isinstance(c, int) else E.CUR.branch(c < 32):
            return V.mkseq("str", [ord(x) for x in "\\u00"] + list(M.hex_digits(c, 2, False)))
        raise KeyError(ch)


def encode_basestring_ascii(s):
    """json.encoder.py_encode_basestring_ascii, one decision per character."""
    if not isinstance(s, (str, V.SymStr)):
        raise TypeError("first argument must be a string, not " + type(s).__name__)
    out = [34]
    for c in V.str_chars(s):
        plain = V.Ranges([(32, 33), (35, 91), (93, 126)]).test(c)
        if plain is True or plain is not False and not isinstance(plain, bool) and E.CUR.branch(plain):
            out.append(c)
            continue
        one = V.mkseq("str", [c])
        try:
            out += list(V.str_chars(EscapeTable()[one]))
            continue
        except KeyError:
            pass
        if (c < 0x10000) if isinstance(c, int) else E.CUR.branch(c < 0x10000):
            units = [c]
        else:
            c = c - 0x10000
            hi = c // 1024 if isinstance(c, int) else c / 1024
            units = [hi + 0xD800, c % 1024 + 0xDC00]
        for u in units:
            out += [92, 117] + list(M.hex_digits(u, 4, False))
    out.append(34)
    return V.mkseq("str", out)


def install_json():
    L.INSTRUMENT_PREFIXES["json"] = sysconfig.get_paths()["stdlib"]

    def post_scanner(m):
        m.make_scanner = m.c_make_scanner = m.py_make_scanner

    def post_decoder(m):
        m.scanstring = m.py_scanstring

    def post_encoder(m):
        m.c_make_encoder = None
        m.ESCAPE_DCT = EscapeTable()
        m.encode_basestring = m.py_encode_basestring
        m.encode_basestring_ascii = encode_basestring_ascii

    L.POST["json.scanner"] = post_scanner
    L.POST["json.decoder"] = post_decoder
    L.POST["json.encoder"] = post_encoder
    real = int.__repr__
    M.EXTRA[real] = lambda v: real(v) if isinstance(v, int) else M.BUILTIN[str](v)


def a2b_base64(data, *, strict_mode=False):
    """binascii.a2b_base64 without strict mode, as in CPython."""
    import binascii

    assert not strict_mode
    if isinstance(data, (str, V.SymStr)):
        data = data.encode("ascii") if isinstance(data, str) else M.call_method(data, "encode", "ascii")
    out, quad, left, pads = [], 0, 0, 0

    def cls(c, lo, hi):
        if isinstance(c, int):
            return lo <= c <= hi
        return E.CUR.branch(z3.And(c >= lo, c <= hi))

    for c in V.str_chars(data):
        if cls(c, 61, 61):
            pads += 1
            if quad >= 2 and quad + pads >= 4:
                return V.mkseq("bytes", out)
            continue
        if not isinstance(c, int):
            t = V.Ranges([(43, 43), (47, 57), (65, 90), (97, 122)]).test(c)
            if not E.CUR.branch(t):
                continue
            v = z3.If(c >= 97, c - 71, z3.If(c >= 65, c - 65, z3.If(c >= 48, c + 4, z3.If(c == 43, z3.IntVal(62), z3.IntVal(63)))))
        else:
            v = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/".find(chr(c))
            if v < 0:
                continue
        pads = 0
        div = lambda a, n: a // n if isinstance(a, int) else a / n
        if quad == 0:
            left, quad = v, 1
        elif quad == 1:
            out.append(left * 4 + div(v, 16))
            left, quad = v % 16, 2
        elif quad == 2:
            out.append(left * 16 + div(v, 4))
            left, quad = v % 4, 3
        else:
            out.append(left * 64 + v)
            left, quad = 0, 0
    if quad == 1:
        raise binascii.Error("Invalid base64-encoded string: number of data characters cannot be 1 more than a multiple of 4")
    if quad:
        raise binascii.Error("Incorrect padding")
    return V.mkseq("bytes", out)


def b2a_base64(data, *, newline=True, safe=False):
    cs = list(V.str_chars(data))
    alphabet = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789" + (b"-_" if safe else b"+/")
    eng = E.CUR

    def enc(v):
        if isinstance(v, int):
            return alphabet[v]
        c = z3.Int(eng.fresh_name("b64"))
        eng.define(c == z3.If(v < 26, v + 65, z3.If(v < 52, v + 71, z3.If(v < 62, v - 4, z3.If(v == 62, z3.IntVal(alphabet[62]), z3.IntVal(alphabet[63]))))))
        return c

    def cut(v, n):
        """(v // n, v % n), linear"""
        if isinstance(v, int):
            return divmod(v, n)
        h, l = z3.Int(eng.fresh_name("b64h")), z3.Int(eng.fresh_name("b64l"))
        eng.define(z3.And(v == n * h + l, l >= 0, l < n, h >= 0, h < 256 // n))
        return h, l

    out = []
    for i in range(0, len(cs), 3):
        orig = cs[i:i + 3]
        n = len(orig)
        q = orig + [0] * (3 - n)
        (a1, a0), (b1, b0), (c1, c0) = cut(q[0], 4), cut(q[1], 16), cut(q[2], 64)
        vals = [a1, a0 * 16 + b1, b0 * 4 + c1, c0]
        if all(isinstance(x, int) for x in q):
            quad = [enc(v) for v in vals[:n + 1]]
        else:
            key = tuple(x if isinstance(x, int) else ("t", x.get_id()) for x in orig)
            memo = eng.memo.setdefault(("b64enc", safe), {})
            if key not in memo:
                memo[key] = ([enc(v) for v in vals[:n + 1]], orig)
            quad = memo[key][0]
            back = eng.memo.setdefault(("b64dec", safe), {})
            back[tuple(x if isinstance(x, int) else ("t", x.get_id()) for x in quad)] = orig
        out += list(quad) + [61] * (3 - n)
    if newline:
        out.append(10)
    return V.mkseq("bytes", out)


def known_base64(cs, safe):
    """The bytes whose encoding these characters are, if they come from the encoder."""
    import base64

    back = E.CUR.memo.get(("b64dec", safe))
    if not back:
        return None
    cs = list(cs)
    while cs and isinstance(cs[-1], int) and cs[-1] == 61:
        cs.pop()
    out = []
    for i in range(0, len(cs), 4):
        quad = cs[i:i + 4]
        if all(isinstance(x, int) for x in quad):
            try:
                text = bytes(quad) + b"=" * (-len(quad) % 4)
                if len(quad) == 1 or base64.b64encode(base64.b64decode(text, b"-_" if safe else None, True), b"-_" if safe else None) != text:
                    return None
                out += list(base64.b64decode(text, b"-_" if safe else None))
            except ValueError:
                return None
            continue
        orig = back.get(tuple(x if isinstance(x, int) else ("t", x.get_id()) for x in quad))
        if orig is None or len(orig) != len(quad) - 1:
            return None
        out += orig
    return V.mkseq("bytes", out)


def install_base64():
    import binascii

    L.INSTRUMENT_PREFIXES["base64"] = sysconfig.get_paths()["stdlib"]

    def post(m):
        decode = m.urlsafe_b64decode
        real = __import__("base64")

        def urlsafe_b64encode(data):
            if V.is_sym(data):
                return b2a_base64(data, newline=False, safe=True)
            return real.urlsafe_b64encode(bytes(V.str_chars(data)))

        def urlsafe_b64decode(data):
            r = None
            if V.is_sym(data):
                r = known_base64(V.str_chars(data), True)
            return decode(data) if r is None else r

        m.urlsafe_b64encode = urlsafe_b64encode
        m.urlsafe_b64decode = urlsafe_b64decode

    L.POST["base64"] = post

    def a2b(data, *, strict_mode=False):
        if V.is_sym(data):
            r = known_base64(V.str_chars(data), False)
            if r is not None:
                return r
            return a2b_base64(data, strict_mode=strict_mode)
        return binascii.a2b_base64(data, strict_mode=strict_mode)

    M.EXTRA[binascii.a2b_base64] = a2b
    M.EXTRA[binascii.b2a_base64] = b2a_base64


class Hmac:
    """HMAC with a concrete key: real for concrete messages, otherwise an unknown value that
    is the same for equal messages and different for different ones."""

    def __init__(self, key, msg=b"", digestmod=""):
        self._key, self._msg, self._mod = key, b"" if msg is None else msg, digestmod

    def update(self, data):
        self._msg = self._msg + data if len(self._msg) else data

    def digest(self):
        import hmac

        eng = E.CUR
        cs = list(V.str_chars(self._msg))
        key = bytes(V.str_chars(self._key))
        sym = not all(isinstance(c, int) for c in cs)
        if eng is None:
            return hmac.new(key, bytes(cs), "sha1").digest()
        known = eng.memo.setdefault(("hmac", key), [])
        for old, out in known:
            if len(old) == len(cs) and all(x is y or (isinstance(x, int) and isinstance(y, int) and x == y) or (not isinstance(x, int) and not isinstance(y, int) and x.eq(y)) for x, y in zip(old, cs)):
                return V.mkseq("bytes", out)
        if not sym:
            out = tuple(hmac.new(key, bytes(cs), "sha1").digest())
        else:
            name = eng.fresh_name("hmac")
            out = tuple(z3.Int("%s.%d" % (name, i)) for i in range(20))
            eng.define(z3.And(*[z3.And(d >= 0, d <= 255) for d in out]))
        for old, o in known:
            if sym or not all(isinstance(c, int) for c in old):
                same = z3.And(*[x == y if not (isinstance(x, int) and isinstance(y, int)) else z3.BoolVal(x == y) for x, y in zip(o, out)])
                if len(old) == len(cs):
                    eng.define(same == z3.And(*[x == y if not (isinstance(x, int) and isinstance(y, int)) else z3.BoolVal(x == y) for x, y in zip(old, cs)]))
                else:
                    eng.define(z3.Not(same))
        known.append((cs, out))
        return V.mkseq("bytes", out)

    def hexdigest(self):
        return M.call_method(self.digest(), "hex") if V.is_sym(self.digest()) else self.digest().hex()


class Struct:
    """struct.Struct; the format ">Q" also on symbolic values."""

    def __init__(self, format):
        import struct

        self.format = format
        self._real = struct.Struct(format)
        self.size = self._real.size

    def pack(self, *vals):
        if any(V.is_sym(v) for v in vals):
            assert self.format == ">Q"
            (v,) = vals
            if not E.CUR.branch(z3.And(v.e >= 0, v.e < 2**64)):
                import struct

                raise struct.error("int too large to convert")
            return V.mkseq("bytes", [v.e / 256 ** (7 - i) % 256 for i in range(8)])
        return self._real.pack(*vals)

    def unpack(self, data):
        if V.is_sym(data):
            assert self.format == ">Q"
            cs = V.str_chars(data)
            if len(cs) != 8:
                import struct

                raise struct.error("unpack requires a buffer of 8 bytes")
            v = 0
            for c in cs:
                v = v * 256 + c
            return (V.SymInt(v) if not isinstance(v, int) else v,)
        return self._real.unpack(data)


def install_signing():
    import datetime
    import hmac
    import struct
    import time

    L.INSTRUMENT_PREFIXES["itsdangerous"] = L.SITE

    def like(real, **over):
        m = type(real)(real.__name__)
        m.__dict__.update({k: v for k, v in vars(real).items() if k not in ("__loader__", "__spec__")})
        m.__dict__.update(over)
        L.SHIMS[real.__name__] = m

    like(hmac, new=Hmac, HMAC=Hmac, compare_digest=lambda a, b: M.eq(a, b))
    like(struct, Struct=Struct)
    like(time)
    real = datetime.datetime.fromtimestamp

    def fromtimestamp(ts, tz=None):
        if isinstance(ts, V.SymInt):
            if not E.CUR.branch(ts.e <= 253402300799):
                raise ValueError("year is out of range")
            ts = 0  # only put into exceptions
        return real(ts, tz)

    M.EXTRA[real] = fromtimestamp


def install_traceback():
    for name in ("traceback", "textwrap"):
        L.INSTRUMENT_PREFIXES[name] = sysconfig.get_paths()["stdlib"]

    def post(m):
        safe = m._safe_string

        def _safe_string(value, what, func=str):
            if func is repr:
                return "<repr>"  # representations of local variables are opaque
            return safe(value, what, func)

        m._safe_string = _safe_string

    L.POST["traceback"] = post


class TextFile:
    """A text file opened for reading, over a symbolic text."""

    def __init__(self, text):
        self.text, self.pos, self.closed = text, 0, False

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def close(self):
        self.closed = True

    def readable(self):
        return True

    def _left(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        return V.mkseq("str", V.str_chars(self.text)[self.pos :])

    def read(self, n=-1):
        left = self._left()
        if n is not None and n >= 0:
            left = V.mkseq("str", V.str_chars(left)[:n])
        self.pos += len(V.str_chars(left))
        return left

    def readline(self):
        cs = V.str_chars(self._left())
        k = 0
        while k < len(cs):
            k += 1
            if V.test(V.ceq(cs[k - 1], 10)):
                break
        self.pos += k
        return V.mkseq("str", cs[:k])

    def readlines(self):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not len(line):
            raise StopIteration
        return line


FILES = {}  # path -> text of the files made by S.file
_dir = []


def make_file(name, text):
    if not _dir:
        import atexit
        import shutil

        _dir.append(tempfile.mkdtemp())
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_dir[0], ignore_errors=True))
    path = os.path.join(_dir[0], name)
    with open(path, "w") as f:
        f.write("placeholder")
    FILES[path] = text
    return path


def universal(text):
    out = []
    cs = V.str_chars(text)
    i = 0
    while i < len(cs):
        if V.test(V.ceq(cs[i], 13)):
            out.append(10)
            i += 2 if i + 1 < len(cs) and V.test(V.ceq(cs[i + 1], 10)) else 1
        else:
            out.append(cs[i])
            i += 1
    return V.mkseq("str", out)


def install_files():
    import io
    import pathlib

    real = open
    found = lambda p: FILES.get(os.fspath(p)) if isinstance(p, (str, os.PathLike)) else None

    def open_(file, mode="r", *a, **kw):
        text = found(file)
        if text is None:
            return real(file, mode, *a, **kw)
        if set(mode) - set("rt"):
            E.CUR.unsupported("open mode %s" % mode)
        return TextFile(universal(text))

    M.EXTRA[real] = open_
    read_text, path_open = pathlib.Path.read_text, pathlib.Path.open
    pathlib.Path.open = lambda self, *a, **kw: path_open(self, *a, **kw) if found(self) is None else open_(self, *a, **kw)
    pathlib.Path.read_text = lambda self, *a, **kw: read_text(self, *a, **kw) if found(self) is None else open_(self).read()


def install_jinja():
    """Jinja2 itself runs as it is; what its compiled templates do with interpolated values
    (escape, str, concatenation) accepts symbolic texts."""

    def post(module):
        import jinja2
        import jinja2.runtime
        import markupsafe

        if getattr(jinja2, "_sx", False):
            return
        jinja2._sx = True
        real_escape, real_from_code = markupsafe.escape, jinja2.Template.from_code.__func__

        class Safe:
            """A Markup over a symbolic text."""

            def __init__(self, text):
                self.text = text

            def __html__(self):
                return self

        def escape(value):
            if isinstance(value, Safe):
                return value
            if hasattr(value, "__html__"):
                text = value.__html__()
                return Safe(text) if isinstance(text, V.SymSeq) else text if isinstance(text, Safe) else markupsafe.Markup(text)
            text = M.call(str, value)
            if not isinstance(text, V.SymSeq):
                return real_escape(text)
            # markupsafe._native._escape_inner
            for a, b in (("&", "&amp;"), (">", "&gt;"), ("<", "&lt;"), ("'", "&#39;"), ('"', "&#34;")):
                text = text.replace(a, b)
            return Safe(text)

        def concat(pieces):
            return M.join_("", [p.text if isinstance(p, Safe) else p for p in pieces])

        def text(*args):
            return M.call(str, *args)

        def from_code(cls, environment, code, globals, uptodate=None):
            t = real_from_code(cls, environment, code, globals, uptodate)
            t.root_render_func.__globals__["str"] = text
            return t

        jinja2.runtime.escape = escape
        jinja2.Environment.concat = staticmethod(concat)
        jinja2.Template.from_code = classmethod(from_code)

    L.POST["starlette.templating"] = post


def install_portal():
    """The test client's blocking portal: an event loop in this thread which runs while the
    client waits for it (plus any turns a harness asks for), instead of in another thread."""
    import asyncio
    import concurrent.futures
    import contextlib

    import anyio.from_thread

    L.INSTRUMENT_PREFIXES["httpx"] = L.SITE

    def post(m):
        phrase = m.codes.get_reason_phrase

        def get_reason_phrase(value):
            return "" if isinstance(value, V.SymInt) else phrase(value)  # only logged

        type.__setattr__(m.codes, "get_reason_phrase", staticmethod(get_reason_phrase))

    L.POST["httpx._status_codes"] = post
    import urllib.request

    L.SHIMS["urllib"].request = urllib.request

    class Deadlock(Exception):
        pass

    class Loop(asyncio.SelectorEventLoop):
        def _run_once(self):
            if not self._ready and not self._scheduled:
                raise Deadlock
            super()._run_once()

    class Result(concurrent.futures.Future):
        def result(self, timeout=None):
            if not self.done() and not self.portal.loop.is_running():
                self.portal.run(self.task)
            if not self.done():
                raise Deadlock
            return super().result(0)

    class Portal:
        def __init__(self):
            self.loop, self.tasks = Loop(), []

        def run(self, task):
            try:
                self.loop.run_until_complete(self._wait(task))
            except Deadlock:
                raise RuntimeError("deadlock") from None

        async def _wait(self, task):
            await asyncio.wait([task])

        def _start(self, func, args, kwargs, future):
            async def go():
                try:
                    value = func(*args, **kwargs)
                    if asyncio.iscoroutine(value):
                        value = await value
                except asyncio.CancelledError:
                    future.cancel()
                    raise
                except BaseException as exc:
                    future.set_exception(exc)
                    if not isinstance(exc, Exception):
                        raise
                else:
                    future.set_result(value)

            task = self.loop.create_task(go())
            future.task, future.portal = task, self
            self.tasks.append(task)
            return task

        def start_task_soon(self, func, *args, name=None):
            future = Result()
            self._start(func, args, {}, future)
            return future

        def call(self, func, *args):
            future = self.start_task_soon(func, *args)
            self.run(future.task)
            return future.result()

        def start_task(self, func, *args, name=None):
            future = Result()
            started = self.loop.create_future()

            class Status:
                def started(self, value=None):
                    started.set_result(value)

            task = self._start(func, args, {"task_status": Status()}, future)
            task.add_done_callback(lambda t: started.done() or started.set_exception(RuntimeError("task exited without calling started")))
            try:
                self.loop.run_until_complete(started)
            except RuntimeError:
                if future.done() and future.exception():
                    raise future.exception() from None
                raise
            return future, started.result()

        def close(self, cancel):
            try:
                if cancel:
                    for t in self.tasks:
                        t.cancel()
                for t in self.tasks:
                    if not t.done():
                        self.run(t)
                self.loop.run_until_complete(self.loop.shutdown_asyncgens())
            finally:
                self.loop.set_exception_handler(lambda *a: None)
                self.loop.close()

    @contextlib.contextmanager
    def start_blocking_portal(backend="asyncio", backend_options=None):
        portal = Portal()
        try:
            yield portal
        except BaseException:
            portal.close(True)
            raise
        portal.close(False)

    anyio.from_thread.start_blocking_portal = start_blocking_portal


def install():
    install_files()
    install_portal()
    install_jinja()
    install_hashlib()
    install_traceback()
    install_signing()
    install_json()
    install_base64()
    install_io()
    mimetypes.init()
    real_guess = mimetypes.guess_type

    def guess_type(url, strict=True):
        # a table lookup by extension: over every value the name can have
        if isinstance(url, V.SymSeq):
            url = V.concretise_seq(url, "mimetypes.guess_type")
        return real_guess(url, strict)

    M.EXTRA[real_guess] = guess_type
    L.INSTRUMENT_PREFIXES["email._parseaddr"] = sysconfig.get_paths()["stdlib"]
    parse = L.load("email._parseaddr")
    M.EXTRA[email.utils.parsedate] = parse.parsedate
    import anyio.to_thread

    async def run_sync(func, *args, abandon_on_cancel=False, cancellable=None, limiter=None):
        # a worker thread call, executed in place in a copy of the caller's context
        return contextvars.copy_context().run(func, *args)

    anyio.to_thread.run_sync = run_sync
    import anyio.from_thread

    def from_thread_run(func, *args):
        # back in the event loop: the coroutine is stepped in place; it may pass through
        # bare checkpoints but not wait
        coro = func(*args)
        for _ in range(100):
            try:
                if coro.send(None) is not None:
                    break
            except StopIteration as e:
                return e.value
        coro.close()
        raise RuntimeError("from_thread.run of a coroutine that waits")

    anyio.from_thread.run = from_thread_run
    logging.disable(logging.CRITICAL)

    m = type(tempfile)("tempfile")
    m.__dict__.update({k: v for k, v in vars(tempfile).items() if k not in ("__loader__", "__spec__")})
    m.SpooledTemporaryFile = SpooledTemporaryFile
    L.SHIMS["tempfile"] = m
