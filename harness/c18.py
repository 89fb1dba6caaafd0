"""C18: multipart limits are enforced exactly."""
import tempfile

import starlette.formparsers as formparsers
from hlib import Channel, call, drive, http_scope

from starlette.applications import Starlette
from starlette.datastructures import UploadFile
from starlette.formparsers import MultiPartException
from starlette.requests import Request
from starlette.responses import Response
from starlette.routing import Route


class Recorder:
    """Records the temporary files that are opened."""

    def __enter__(self):
        self.files = []
        self.real = tempfile.SpooledTemporaryFile
        self.old = getattr(formparsers, "SpooledTemporaryFile", None)

        def make(*a, **k):
            f = self.real(*a, **k)
            self.files.append(f)
            return f

        tempfile.SpooledTemporaryFile = make
        if self.old is not None:
            formparsers.SpooledTemporaryFile = make
        return self

    def __exit__(self, *exc):
        tempfile.SpooledTemporaryFile = self.real
        if self.old is not None:
            formparsers.SpooledTemporaryFile = self.old


def encode(parts):
    out = b""
    for i, (kind, content) in enumerate(parts):
        out = out + b'--b\r\nContent-Disposition: form-data; name="n%d"' % i
        if kind == "file":
            out = out + b'; filename="f"'
        out = out + b"\r\n\r\n" + content + b"\r\n"
    return out + b"--b--\r\n"


def messages(body, cuts):
    out, prev = [], 0
    for c in cuts:
        out.append(body[prev:c])
        prev = c
    out.append(body[prev:])
    return [{"type": "http.request", "body": c, "more_body": i < len(out) - 1} for i, c in enumerate(out)]


CTYPE = [(b"content-type", b"multipart/form-data; boundary=b")]


def attempt(msgs, limits, in_app):
    """('ok', [(kind, size)]) or ('refused',), and the temporary files opened."""
    seen = []

    async def read(request):
        form = await request.form(**limits)
        for k, v in form.multi_items():
            if isinstance(v, UploadFile):
                seen.append(("file", v.size))
            else:
                seen.append(("field", len(v)))
        return Response(b"")

    with Recorder() as rec:
        if in_app:
            app = Starlette(routes=[Route("/", read, methods=["POST"])])
            ch = call(app, http_scope(method="POST", headers=CTYPE), msgs)
            ok = ch.status == 200
            assert ok or ch.status == 400, ch.status
        else:
            ch = Channel(msgs)
            try:
                drive(read(Request(http_scope(method="POST", headers=CTYPE), ch.receive)))
                ok = True
            except MultiPartException:
                ok = False
    return ok, seen, rec.files


def verdict(S, parts, max_files, max_fields, max_part_size):
    files = len([1 for k, c in parts if k == "file"])
    fields = len(parts) - files
    return S.And(files <= max_files, fields <= max_fields, *[len(c) <= max_part_size for k, c in parts if k == "field"])


def judge(S, parts, limits, ok, seen, opened):
    good = verdict(S, parts, limits["max_files"], limits["max_fields"], limits["max_part_size"])
    if ok:
        S.check(good, "a form beyond its limits was accepted")
        S.check(seen == [(k, len(c)) for k, c in parts], "parts")
        S.check(all(not f.closed for f in opened), "an accepted file is closed")
        for f in opened:
            f.close()
        S.cover("accepted")
    else:
        S.check(S.Not(good), "a form within its limits was refused")
        S.check(all(f.closed for f in opened), "a temporary file stays open")
        S.cover("refused")
        if opened:
            S.cover("closed")


def h_counts(S):
    """Numbers of files and fields against symbolic limits."""
    n = S.pick("n", 0, S.q(4, 5))
    parts = [(S.choice("kind%d" % i, ["file", "field"]), b"x") for i in range(n)]
    limits = dict(max_files=S.int("max_files", 0, n + 1), max_fields=S.int("max_fields", 0, n + 1), max_part_size=1)
    ok, seen, opened = attempt(messages(encode(parts), []), limits, S.flag("app"))
    judge(S, parts, limits, ok, seen, opened)


def h_sizes(S):
    """Sizes of fields (and files, which have no limit) against a symbolic limit, in any chunking."""
    n = S.q(1, 2)
    size = S.pick("size", 0, S.q(4, 5))
    kinds = S.choice("kinds", [["field"], ["file", "field"], ["field", "field"]])
    parts = [(k, (b"abcdefgh"[:size] if i == len(kinds) - 1 else b"xy")) for i, k in enumerate(kinds)]
    body = encode(parts)
    end = len(body) - 7
    cuts, at = [], end - size - 1
    for i in range(S.q(2, 3)):
        at = S.pick("cut%d" % i, at, end + 5)
        cuts.append(at)
    limits = dict(max_files=1, max_fields=2, max_part_size=S.int("max_part_size", 0, 6))
    ok, seen, opened = attempt(messages(body, cuts), limits, False)
    judge(S, parts, limits, ok, seen, opened)
    S.cover("sized")


def h_content(S):
    """The size counts bytes, whatever they are."""
    content = S.bytes("content", 0, S.q(3, 4), alphabet=b"\r\n-\xc3\xa9b")
    S.assume(S.Not(content[:3] == b"--b") if len(content) >= 3 else True)
    limits = dict(max_files=0, max_fields=1, max_part_size=S.int("max_part_size", 0, 4))
    body = encode([("field", content)])
    ok, seen, opened = attempt(messages(body, [S.pick("cut", len(body) - 9 - len(content), len(body))]), limits, False)
    good = limits["max_part_size"] >= len(content)
    S.check(good if ok else S.Not(good), "limit on the bytes of a field")
    S.cover("ok" if ok else "refused")


def h_anywhere(S):
    """The offending part anywhere among others, the body cut anywhere."""
    n = S.q(3, 4)
    parts = [(S.choice("kind%d" % i, ["file", "field"]), b"x" * S.pick("size%d" % i, 1, 2)) for i in range(n)]
    body = encode(parts)
    limits = dict(max_files=S.choice("mf", [1, 2, float("inf")]), max_fields=S.choice("md", [1, 3, float("inf")]), max_part_size=S.choice("mp", [1, 2]))
    ok, seen, opened = attempt(messages(body, [S.choice("cut", [0, 30, len(body) // 2, len(body) - 9])]), limits, False)
    judge(S, parts, limits, ok, seen, opened)


def h_defaults(S):
    """The default limits: 1000 files, 1000 fields, 1 MiB for a field."""
    which = S.choice("which", ["files", "fields", "size"])
    over = S.flag("over")
    limits = dict(max_files=1000, max_fields=1000, max_part_size=1024 * 1024)
    if which == "size":
        parts = [("file", b"y" * 5), ("field", b"x" * (1024 * 1024 + over))]
    else:
        parts = [(which[:-1], b"")] * (1000 + over)
    ok, seen, opened = attempt(messages(encode(parts), [60]), {}, S.flag("app"))
    judge(S, parts, limits, ok, seen, opened)
    S.cover(which)


def h_broken(S):
    """A body that is malformed or cut off, with files open or ended, is refused and every file closed."""
    kinds = S.choice("kinds", [["file"], ["file", "file"], ["file", "field"], ["field", "file"], ["file", "field", "file"]])
    body = encode([(k, b"x") for k in kinds])
    first = 58  # past the headers of the first file
    end = S.pick("end", 0, len(body) - 5)
    broken = body[:end]
    if S.flag("garbage"):
        broken = broken + b"\r\n--bX"
    msgs = messages(broken, [S.choice("cut", [0, first, len(body) // 2])])
    ok, seen, opened = attempt(msgs, dict(max_files=9, max_fields=9, max_part_size=9), S.flag("app"))
    S.check(not ok, "an unfinished form was accepted")
    S.check(all(f.closed for f in opened), "a temporary file stays open")
    S.cover("opened %d" % len(opened))


ASSUMPTIONS = ["the limits count files (parts with a filename), fields (other parts) and the bytes of one field's content; temporary files are counted at tempfile.SpooledTemporaryFile"]
HARNESSES = [
    dict(name="h_counts", covers=["accepted", "refused", "closed"], bounds="<= 4 (thorough 5) parts of either kind x every pair of limits, direct and in an application"),
    dict(name="h_sizes", covers=["accepted", "refused", "closed", "sized"], bounds="field or file content of <= 4 (5) bytes x every part size limit 0..6, cut at 2 (3) places"),
    dict(name="h_content", covers=["ok", "refused"], bounds="field content of <= 3 (4) bytes incl. CR LF - and multi-byte text x every limit 0..4, cut anywhere"),
    dict(name="h_anywhere", covers=["accepted", "refused", "closed"], bounds="3 (4) parts of either kind and 1..2 bytes x 3 x 3 x 2 limits (also infinite) x 4 cuts"),
    dict(name="h_defaults", covers=["accepted", "refused", "files", "fields", "size"], bounds="at and one beyond each default limit"),
    dict(name="h_broken", covers=["opened 0", "opened 1", "opened 2"], bounds="5 forms of <= 3 parts cut off at every byte, followed by nothing or a malformed boundary, cut at 3 places, direct and in an application"),
]
