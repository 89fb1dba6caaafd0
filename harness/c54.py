"""C54: uploaded files behave as the file they hold."""
import tempfile

from hlib import Channel, Workers, drive, http_scope

from starlette.datastructures import Headers, UploadFile
from starlette.requests import Request


class Stop(BaseException):
    pass


class Spy:
    """A file that notes whether it is used in a worker."""

    def __init__(self, file, workers, log, rolled):
        self.file = file
        self.workers = workers
        self.log = log
        if rolled is not None:
            self._rolled = rolled

    def note(self, name):
        self.log.append((name, self.workers.depth > 0))

    def write(self, data):
        self.note("write")
        return self.file.write(data)

    def read(self, size=-1):
        self.note("read")
        return self.file.read(size)

    def seek(self, offset):
        self.note("seek")
        return self.file.seek(offset)

    def close(self):
        self.note("close")
        return self.file.close()


def h_history(S):
    """A history of writes, seeks and reads against a byte buffer."""
    form = S.choice("form", ["memory", "disk", "rolls"])
    initial = S.bytes("initial", 0, 2)
    size = S.choice("size", ["given", "none"])
    n = S.q(3, 4)
    f = tempfile.SpooledTemporaryFile(max_size=2 if form == "rolls" else 100)
    if form == "disk":
        f.rollover()
    f.write(initial)
    f.seek(0)
    u = UploadFile(f, size=len(initial) if size == "given" else None)
    content, pos, appended = initial, 0, True
    with Workers():
        for i in range(n):
            op = S.choice("op%d" % i, ["write", "read", "readn", "seek"])
            if op == "write":
                data = S.bytes("data%d" % i, 0, 2)
                S.assume(pos <= len(content))
                appended = appended and pos == len(content)
                S.check(drive(u.write(data)) is None, "write")
                content = content[:pos] + data + content[pos + len(data) :]
                pos += len(data)
            elif op == "read":
                S.check(S.eq(drive(u.read()), content[pos:]), "read to the end")
                pos = max(pos, len(content))
            elif op == "readn":
                k = S.pick("k%d" % i, -1, 3)
                want = content[pos:] if k < 0 else content[pos : pos + k]
                S.check(S.eq(drive(u.read(k)), want), "read of a size")
                pos += len(want)
            else:
                pos = S.pick("k%d" % i, 0, 3)
                S.check(drive(u.seek(pos)) is None, "seek")
        drive(u.seek(0))
        S.check(S.eq(drive(u.read()), content), "the content at the end")
        if size == "none":
            S.check(u.size is None, "unknown size")
        elif appended:
            S.check(u.size == len(content), "size")
            S.cover("size")
        drive(u.close())
    closed = False
    try:
        f.read()
    except ValueError:
        closed = True
    S.check(closed, "closed")
    S.cover(form)


def h_where(S):
    """Files on disk are used in worker threads, others in place; each call once."""
    rolled = S.choice("rolled", [True, False, None])
    log = []
    with Workers() as w:
        spy = Spy(tempfile.SpooledTemporaryFile(), w, log, rolled)
        u = UploadFile(spy, size=0)
        ops = []
        for i in range(2):
            op = S.choice("op%d" % i, ["write", "read", "seek", "close"])
            S.assume("close" not in ops)
            ops.append(op)
            if op == "write":
                drive(u.write(b"ab"))
            elif op == "read":
                drive(u.read(1))
            elif op == "seek":
                drive(u.seek(1))
            else:
                drive(u.close())
        S.check(log == [(op, rolled is not False) for op in ops], "one call each, in the right place")
        S.check(w.calls == (0 if rolled is False else len(ops)), "worker threads")
    S.cover("disk" if rolled is not False else "memory")


def h_fields(S):
    """Name, type, size and headers."""
    v = S.str("type", 0, 3, ranges=[(0, 255)])
    name = S.str("name", 0, 3)
    size = S.int("size", 0)
    which = S.choice("headers", ["none", "empty", "other", "type"])
    headers = {"none": None, "empty": Headers(), "other": Headers({"x": v}), "type": Headers({"Content-Type": v, "x": "y"})}[which]
    named = S.flag("named")
    sized = S.flag("sized")
    f = tempfile.SpooledTemporaryFile()
    kw = {}
    if which != "none":
        kw["headers"] = headers
    if named:
        kw["filename"] = name
    if sized:
        kw["size"] = size
    u = UploadFile(f, **kw)
    S.check(u.file is f, "file")
    S.check(S.eq(u.filename, name if named else None), "filename")
    S.check(S.eq(u.size, size if sized else None), "size")
    S.check(S.eq(u.headers.items(), headers.items() if headers is not None else []), "headers")
    S.check(S.eq(u.content_type, v if which == "type" else None), "content type")
    S.cover(which)


def h_closing(S):
    """Leaving the block a form was opened for closes its files, whatever happened inside."""
    kinds = [S.choice("kind%d" % i, ["file", "field"]) for i in range(S.pick("n", 0, S.q(3, 4)))]
    how = S.choice("how", ["block", "form", "request"])
    boom = S.choice("boom", [None, KeyError("k"), Stop()]) if how == "block" else None
    content = S.bytes("content", 0, 1, alphabet=[0, 10, 255])
    body = b""
    for i, k in enumerate(kinds):
        body = body + b'--b\r\nContent-Disposition: form-data; name="n%d"' % (i // 2) + (b'; filename="f"' if k == "file" else b"") + b"\r\n\r\n" + (content if i == 0 else b"x") + b"\r\n"
    body = body + b"--b--\r\n"
    ch = Channel([{"type": "http.request", "body": body, "more_body": False}])
    request = Request(http_scope(method="POST", headers=[(b"content-type", b"multipart/form-data; boundary=b")]), ch.receive)
    files = []

    def note(form):
        files.extend(v for k, v in form.multi_items() if isinstance(v, UploadFile))
        S.check(all(not f.file.closed for f in files), "open until then")

    async def go():
        if how == "block":
            async with request.form() as form:
                note(form)
                if boom is not None:
                    raise boom
        else:
            form = await request.form()
            note(form)
            await (form if how == "form" else request).close()
            again = await request.form()
            S.check(S.eq(again.multi_items(), form.multi_items()), "the form read again")

    error = None
    with Workers():
        try:
            drive(go())
        except (KeyError, Stop) as e:
            error = e
    S.check(error is boom, "the error")
    S.check(len(files) == kinds.count("file"), "the files")
    S.check(all(f.file.closed for f in files), "every file is closed")
    S.cover("failed" if boom else how)


ASSUMPTIONS = [
    "the temporary file of the standard library is a byte buffer (replaced in symbolic runs, real in replay); worker threads run in place",
    "size is judged while data is only appended; writes do not begin past the end",
]
HARNESSES = [
    dict(name="h_history", covers=["memory", "disk", "rolls", "size"], bounds="every content of <= 2 bytes and 3 (4) writes of <= 2 bytes, reads of -1..3 and seeks to 0..3; files in memory, on disk and rolling over meanwhile"),
    dict(name="h_where", covers=["disk", "memory"], bounds="every two operations on files that say they are in memory, on disk or nothing"),
    dict(name="h_fields", covers=["none", "empty", "other", "type"], bounds="every type and name of <= 3 characters and every size; 4 forms of headers"),
    dict(name="h_closing", covers=["failed", "block", "form", "request"], bounds="<= 3 (4) parts, files and fields, under names used twice; block left normally or by an error, form closed, request closed"),
]
