"""C56: a response object can be sent any number of times."""
import gzip
import time

from hlib import call, http_scope, ws_scope
from vfile import VFile, multipart, number, only

from starlette.background import BackgroundTask
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.responses import FileResponse, HTMLResponse, JSONResponse, PlainTextResponse, RedirectResponse, Response

NOW = 1700000000


class Clock:
    def __enter__(self):
        self.real = time.time
        time.time = lambda: NOW

    def __exit__(self, *exc):
        time.time = self.real


KINDS = ["bytes", "text", "html", "json", "redirect", "empty", "204", "view"]


def build(S, kind, text, value, log):
    bg = BackgroundTask(log.append, "ran") if log is not None else None
    headers = {"X-V": value, "Vary": "x"}
    if kind == "bytes":
        r = Response(text.encode("latin-1"), 200, headers, "image/x", bg)
    elif kind == "text":
        r = PlainTextResponse(text, 404, headers, background=bg)
    elif kind == "html":
        r = HTMLResponse(text, headers=headers, background=bg)
    elif kind == "json":
        r = JSONResponse({"k": text}, headers=headers, background=bg)
    elif kind == "redirect":
        r = RedirectResponse("/" + text, headers=headers, background=bg)
    elif kind == "empty":
        r = Response(headers=headers, background=bg)
    elif kind == "204":
        r = Response(status_code=204, background=bg)
    else:
        r = Response(memoryview(b"abc"), headers=headers, background=bg)
    return r


def copied(ch):
    return [{**m, "headers": list(m["headers"])} if "headers" in m else dict(m) for m in ch.sent]


def same(S, got, want, what):
    S.check(len(got) == len(want), what + ": number of messages")
    for a, b in zip(got, want):
        S.check(sorted(a) == sorted(b), what + ": keys of a message")
        for k in b:
            S.check(S.eq(a[k], b[k]), what + ": " + k)


def h_plain(S):
    """Every kind of response sent over several connections, with cookies set in between."""
    kind = S.choice("kind", KINDS)
    text = S.str("text", 0, S.q(2, 3), ranges=[(32, 126), (160, 255)]) if kind != "redirect" else S.str("text", 0, 2, alphabet="a/?é")
    value = S.str("value", 0, 1, ranges=[(32, 126)])
    scopes = [http_scope(method=S.choice("m%d" % i, ["GET", "HEAD"])) if not S.flag("ws%d" % i) else ws_scope() for i in range(2)]
    log = [] if S.flag("background") else None
    r = build(S, kind, text, value, log)
    first = copied(call(r, scopes[0]))
    second = copied(call(r, scopes[1]))
    fresh = copied(call(build(S, kind, text, value, None), scopes[1]))
    same(S, second, fresh, "the second sending against a new response")
    S.check(len(first) == 2, "messages")
    S.check(log is None or log == ["ran", "ran"], "background tasks run once per sending")
    r.set_cookie("c", "1")
    third = copied(call(r, scopes[1]))
    same(S, third[1:], fresh[1:], "body after a cookie was set")
    S.check(S.eq(third[0]["headers"][:-1], fresh[0]["headers"]), "headers after a cookie was set")
    S.check(third[0]["headers"][-1][0] == b"set-cookie", "the cookie is not sent")
    S.cover(kind)


class Mark(BaseHTTPMiddleware):
    async def dispatch(self, request, call_next):
        response = await call_next(request)
        response.headers["x-mark"] = request.headers["x-n"]
        response.set_cookie("m", request.headers["x-n"])
        return response


def adder(app):
    async def mw(scope, receive, send):
        async def sender(message):
            await send(message)

        scope["session"]["n"] = dict(scope["headers"])[b"x-n"].decode()
        await app(scope, receive, sender)

    return SessionMiddleware(mw, "secret")


STACKS = {
    "gzip": lambda app: GZipMiddleware(app, minimum_size=1),
    "cors": lambda app: CORSMiddleware(app, allow_origins=["http://a", "http://b"], allow_credentials=True, expose_headers=["x"]),
    "function": Mark,
    "session": adder,
    "all": lambda app: GZipMiddleware(CORSMiddleware(Mark(adder(app)), allow_origins=["*"]), minimum_size=1),
}


def h_stack(S):
    """What middleware adds for one client does not reach the next."""
    name = S.choice("stack", sorted(STACKS))
    kind = S.choice("kind", ["bytes", "json", "empty"])
    value = S.str("value", 0, 1, ranges=[(32, 126)])
    scopes = []
    for i in range(2):
        h = [(b"x-n", b"%d" % i)]
        if S.flag("gzip%d" % i):
            h.append((b"accept-encoding", b"gzip"))
        origin = S.choice("origin%d" % i, ["", "http://a", "http://b"]) if name in ("cors", "all") else ""
        if origin:
            h.append((b"origin", origin.encode()))
            if S.flag("cookie%d" % i):
                h.append((b"cookie", b"q=1"))
        scopes.append(h)
    with Clock():
        r = build(S, kind, "text", value, None)
        raw = list(r.raw_headers)
        app = STACKS[name](r)
        gzip.SCHEDULE = ()
        loop = name in ("function", "all")
        call(app, http_scope(headers=scopes[0]), loop=loop)
        second = copied(call(app, http_scope(headers=scopes[1]), loop=loop))
        fresh = copied(call(STACKS[name](build(S, kind, "text", value, None)), http_scope(headers=scopes[1]), loop=loop))
    S.check(S.eq(r.raw_headers, raw), "the response object is changed by middleware")
    same(S, second, fresh, "the second sending against a new response")
    S.cover(name)


def request(S, i, size):
    """A request for the file, and what it asks for."""
    kind = S.choice("request%d" % i, ["whole", "head", "range", "two", "refused"])
    h = []
    if kind == "range":
        a = S.int("a%d" % i, 0, 9)
        b = S.int("b%d" % i, 0, 9)
        S.assume(S.And(a <= b, b < size))
        h.append((b"range", b"bytes=" + str(a).encode() + b"-" + str(b).encode()))
    elif kind == "two":
        S.assume(size > 4)
        h.append((b"range", b"bytes=0-1,3-4"))
    elif kind == "refused":
        h.append((b"range", b"bytes=999-"))
    if kind == "range" and S.flag("if-range%d" % i):
        h.append((b"if-range", b'"other"'))
        kind = "whole"
    return kind, http_scope(method="HEAD" if kind == "head" else "GET", headers=h)


def h_file(S):
    """A file response sent for two requests, the file being the same or another by then."""
    size = S.int("size", 0, 40)
    k1, s1 = request(S, 1, size)
    changed = S.flag("changed")
    size2 = S.int("size2", 0, 40) if changed else size
    k2, s2 = request(S, 2, size2)
    given = not changed and S.flag("stat given")
    name = "n.bin" if S.flag("filename") else None

    with VFile(S, size) as vf:
        import os

        def make():
            return FileResponse(vf.path, media_type="text/x", filename=name, headers={"x-a": "1"}, stat_result=os.stat(vf.path) if given else None)

        r = make()
        call(r, s1)
        if changed:
            vf.resize(size2)
        ch = call(r, s2)
        fresh = call(make(), s2)
        S.check(ch.status == fresh.status, "status of the second sending")
        S.check(ch.status == {"range": 206, "two": 206, "refused": 416}.get(k2, 200), "status")
        if k2 != "two":
            same(S, [ch.sent[0]], [fresh.sent[0]], "start of the second sending")
        else:
            S.check(sorted(k for k, v in ch.headers) == sorted(k for k, v in fresh.headers), "headers of the second sending")
        length = number(S, only(S, ch, b"content-length"))
        if k2 == "two":
            boundary, total, served = multipart(S, vf, ch, False)
            S.check(len(served) == 2, "multipart body")
            S.check(length == number(S, only(S, fresh, b"content-length")), "Content-Length of the second sending")
        elif k2 == "whole":
            rd = vf.reader(ch.sent)
            S.check(length == size2, "Content-Length of the second sending")
            S.check(rd.data(0, size2) and rd.at_end(), "body of the second sending")
        elif k2 == "head":
            S.check(length == size2 and vf.reader(ch.sent).length() == 0, "HEAD")
    S.cover(k2)


ASSUMPTIONS = ["streaming responses are not covered: their content can be consumed once", "the clock is fixed", "zlib is modelled as in C33"]
HARNESSES = [
    dict(name="h_plain", covers=KINDS, bounds="8 kinds of responses, texts of length <= 2 (thorough 3), header values of length <= 1, http GET and HEAD and websocket denials"),
    dict(name="h_stack", covers=sorted(STACKS), bounds="5 middleware stacks x 3 kinds x 2 clients with or without gzip, origins and cookies"),
    dict(name="h_file", covers=["whole", "head", "range", "two", "refused"], bounds="files of 0..40 bytes, 5 kinds of requests twice, ranges of one digit, the file changed in between or not"),
]
