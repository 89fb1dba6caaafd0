"""A file whose size is symbolic and whose bytes are identified by their positions.

In a native run it is a real file of that size with distinguishable content."""
import os
import random
import stat
import tempfile

import anyio


class Span:
    """The file bytes [a, b)."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __len__(self):
        return self.b - self.a

    def __bool__(self):
        return bool(self.b > self.a)

    def __add__(self, other):
        return Rope([self]) + other

    def __radd__(self, other):
        return Rope([other, self])


class Rope:
    """Concatenation of spans and byte strings."""

    def __init__(self, parts):
        self.parts = parts

    def __len__(self):
        return sum([len(p) for p in self.parts])

    def __add__(self, other):
        return Rope(self.parts + (other.parts if isinstance(other, Rope) else [other]))

    def __radd__(self, other):
        return Rope([other] + self.parts)


class FakeFile:
    def __init__(self, vf):
        self.vf, self.pos, self.closed = vf, 0, False

    async def __aenter__(self):
        return self

    async def __aexit__(self, *exc):
        await self.aclose()

    async def aclose(self):
        self.closed = True

    async def seek(self, offset, whence=0):
        assert not self.closed
        self.pos = offset + (0, self.pos, self.vf.size)[whence]
        return self.pos

    async def tell(self):
        return self.pos

    async def read(self, n=-1):
        assert not self.closed
        self.vf.reads += 1
        assert self.vf.reads <= self.vf.max_reads, "the file is read more often than the bound allows"
        a = self.pos
        if a >= self.vf.size:
            return b""
        b = self.vf.size if n is None or n < 0 or a + n > self.vf.size else a + n
        self.pos = b
        return Span(a, b)


class Stat:
    st_mode = stat.S_IFREG | 0o644
    st_mtime = 1700000000.25
    st_mtime_ns = 1700000000250000000
    st_ctime = st_atime = 1700000000.0
    st_ino = 7
    st_dev = 1
    st_nlink = 1
    st_uid = st_gid = 0

    def __init__(self, size):
        self.st_size = size


class VFile:
    """with VFile(S, size) as f: f.path is a file of that size."""

    def __init__(self, S, size, max_reads=20):
        self.S, self.size = S, size
        self.opened = []
        self.reads, self.max_reads = 0, max_reads

    def __enter__(self):
        self.dir = tempfile.mkdtemp()
        self.path = os.path.join(self.dir, "f.bin")
        self.stat = None
        if not self.S.symbolic:
            self.content = random.Random(1).randbytes(self.size)
            with open(self.path, "wb") as f:
                f.write(self.content)
            os.utime(self.path, ns=(Stat.st_mtime_ns, Stat.st_mtime_ns))
        else:
            self.stat = Stat(self.size)
            self.real_open = anyio.open_file
            self.real_stat = os.stat

            async def open_file(path, mode="r", *a, **k):
                assert path == self.path and mode == "rb", (path, mode)
                f = FakeFile(self)
                self.opened.append(f)
                return f

            def fake_stat(path, *a, **k):
                if path == self.path:
                    return self.stat
                return self.real_stat(path, *a, **k)

            anyio.open_file = open_file
            os.stat = fake_stat
        return self

    def __exit__(self, *exc):
        if self.S.symbolic:
            anyio.open_file = self.real_open
            os.stat = self.real_stat
        else:
            os.unlink(self.path)
        os.rmdir(self.dir)

    def resize(self, size):
        """Replace the file by another of that size."""
        self.size = size
        if not self.S.symbolic:
            self.content = random.Random(2).randbytes(size)
            with open(self.path, "wb") as f:
                f.write(self.content)
            os.utime(self.path, ns=(Stat.st_mtime_ns, Stat.st_mtime_ns))
        else:
            self.stat = Stat(size)

    # --- reading a response body
    def reader(self, sent):
        return Reader(self, [m.get("body", b"") for m in sent if m["type"] == "http.response.body"])


class Reader:
    def __init__(self, vf, pieces):
        self.vf, self.S = vf, vf.S
        if self.S.symbolic:
            flat = []
            for p in pieces:
                flat += p.parts if isinstance(p, Rope) else [p]
            self.items = []
            for p in flat:
                if isinstance(p, Span):
                    self.items.append(p)
                elif len(p):
                    if self.items and not isinstance(self.items[-1], Span):
                        self.items[-1] = self.items[-1] + p
                    else:
                        self.items.append(p)
        else:
            self.buf = b"".join(bytes(p) for p in pieces)

    def length(self):
        if self.S.symbolic:
            return sum([len(p) for p in self.items])
        return len(self.buf)

    def text(self, end):
        """Text up to and including end (concrete bytes), or None."""
        if self.S.symbolic:
            if not self.items or isinstance(self.items[0], Span):
                return None
            t = self.items[0]
            k = t.find(end)
            if k < 0:
                return None
            k += len(end)
            if k < len(t):
                self.items[0] = t[k:]
            else:
                self.items.pop(0)
            return t[:k]
        k = self.buf.find(end)
        if k < 0:
            return None
        t, self.buf = self.buf[: k + len(end)], self.buf[k + len(end) :]
        return t

    def data(self, a, b):
        """Formula: the next bytes are the file's [a, b)."""
        if self.S.symbolic:
            ok, cur = [], a
            while self.items and isinstance(self.items[0], Span):
                s = self.items.pop(0)
                ok.append(s.a == cur)
                ok.append(s.a <= s.b)
                cur = s.b
            return self.S.And(a <= b, cur == b, *ok)
        n = b - a
        if n < 0:
            return False
        t, self.buf = self.buf[:n], self.buf[n:]
        return t == self.vf.content[a:b]

    def at_end(self):
        return all(not len(p) for p in self.items) if self.S.symbolic else not self.buf


# --- response headers and multipart bodies
def only(S, ch, name):
    vals = ch.header(name)
    S.check(len(vals) == 1, "%d %s headers" % (len(vals), name.decode()))
    return vals[0]


def number(S, text):
    S.check(S.And(len(text) > 0, *[S.And(c >= 48, c <= 57) for c in text]), "not a number")
    return int(text)


def multipart(S, vf, ch, head):
    """Read a multipart body; the served (start, end) of each part."""
    cr = only(S, ch, b"content-range")
    lead = b"multipart/byteranges; boundary="
    S.check(cr.startswith(lead), "multipart header")
    boundary = cr[len(lead) :]
    S.check(len(boundary) > 10, "boundary")
    r = vf.reader(ch.sent)
    total = r.length()
    served = []
    if head:
        S.check(total == 0, "body for HEAD")
        return boundary, total, served
    while True:
        line = r.text(b"\n")
        S.check(line is not None, "unterminated multipart body")
        if line == b"\n":
            continue
        if line == b"--" + boundary + b"--\n":
            break
        S.check(line == b"--" + boundary + b"\n", "boundary line")
        S.check(r.text(b"\n") == b"Content-Type: text/x; charset=utf-8\n", "part content type")
        head_ = r.text(b"Content-Range: bytes ")
        S.check(head_ == b"Content-Range: bytes ", "part content range")
        a = number(S, r.text(b"-")[:-1])
        b = number(S, r.text(b"/")[:-1]) + 1
        n = number(S, r.text(b"\n\n")[:-2])
        S.check(n == vf.size, "file size in a part")
        S.check(r.data(a, b), "the part is not the range it names")
        S.check(r.text(b"\n") == b"\n", "part terminator")
        served.append((a, b))
        S.check(len(served) < 99, "too many parts")
    S.check(r.at_end(), "text after the closing boundary")
    return boundary, total, served
