"""C59: whatever a client sends, it gets one well-formed response and no failure."""
import os

from hlib import Channel, Workers, http_scope, run
from vfs import MTIME, Tree

from starlette.applications import Starlette
from starlette.datastructures import UploadFile
from starlette.endpoints import HTTPEndpoint
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.middleware.trustedhost import TrustedHostMiddleware
from starlette.authentication import AuthCredentials, AuthenticationError, SimpleUser
from starlette.responses import JSONResponse, PlainTextResponse, RedirectResponse, StreamingResponse
from starlette.routing import Host, Mount, Route
from starlette.staticfiles import StaticFiles


async def plain(request):
    return PlainTextResponse("plain" * 20)


async def cookies(request):
    request.session["seen"] = len(request.cookies)
    response = PlainTextResponse("ok")
    for k in request.cookies:
        response.headers["x-cookies"] = str(len(request.cookies))
    return response


async def query(request):
    return JSONResponse(request.query_params.multi_items())


async def item(request):
    return JSONResponse(request.path_params)


async def form(request):
    async with request.form() as f:
        return JSONResponse([[k, v.filename if isinstance(v, UploadFile) else v] for k, v in f.multi_items()])


async def streamed(request):
    async def chunks():
        async for c in request.stream():
            yield c
        yield b"end"

    return StreamingResponse(chunks(), media_type="text/plain")


async def away(request):
    return RedirectResponse("/to/" + request.path_params["where"] + "?" + request.headers.get("x-where", ""))


class Class(HTTPEndpoint):
    async def get(self, request):
        return PlainTextResponse("get")


class Backend:
    async def authenticate(self, conn):
        value = conn.headers.get("authorization")
        if value is None:
            return None
        scheme, _, rest = value.partition(" ")
        if scheme.lower() != "basic":
            raise AuthenticationError("scheme: " + scheme)
        return AuthCredentials(["in"]), SimpleUser(rest)


async def passing(request, call_next):
    return await call_next(request)


def build(t, which):
    """The application, behind the middleware that the request is about or all of it."""
    routes = [
        Route("/plain", plain),
        Route("/cookies", cookies),
        Route("/query", query),
        Route("/item/{n:int}/{f:float}/{u}/{p:path}", item),
        Route("/form", form, methods=["POST"]),
        Route("/streamed", streamed, methods=["POST"]),
        Route("/away/{where:path}", away),
        Route("/class", Class),
        Route("/slash/", plain),
        Mount("/static", StaticFiles(directory=os.path.join(t.root, "d"), html=True)),
        Host("{sub}.example.org", app=Starlette(routes=[Route("/host", plain)])),
    ]
    stack = [
        Middleware(TrustedHostMiddleware, allowed_hosts=["*"] if which != "hosts" else ["a.org", "*.example.org", "www.b.org"]),
        Middleware(CORSMiddleware, allow_origins=["https://a.org"], allow_origin_regex=r"https://[a-z]+\\.b", allow_headers=["x-a"], allow_credentials=True),
        Middleware(GZipMiddleware, minimum_size=10),
        Middleware(SessionMiddleware, secret_key="secret"),
        Middleware(AuthenticationMiddleware, backend=Backend()),
        Middleware(BaseHTTPMiddleware, dispatch=passing),
    ]
    return Starlette(routes=routes, middleware=stack)


def wellformed(S, sent, head=False):
    S.check(len(sent) >= 2 and [m["type"] for m in sent] == ["http.response.start"] + ["http.response.body"] * (len(sent) - 1), "one response")
    S.check(all(m.get("more_body", False) for m in sent[1:-1]) and not sent[-1].get("more_body", False), "complete")
    status = sent[0]["status"]
    S.check(S.And(status >= 200, status < 500), "no server error")
    total = 0
    for m in sent[1:]:
        total += len(m.get("body", b""))
    ok = []
    for name, value in sent[0]["headers"]:
        S.check(len(name) > 0, "a header without a name")
        ok += [S.Or(S.And(c >= 97, c <= 122), S.And(c >= 48, c <= 57), c == 45) for c in name]
        ok += [S.And(c != 10, c != 13, c != 0) for c in value]
    S.check(S.And(True, *ok), "header names in lower case, values without line ends")
    lengths = [v for k, v in sent[0]["headers"] if k == b"content-length"]
    S.check(len(lengths) <= 1, "one length at most")
    if lengths and not head:
        S.check(lengths[0] == str(total).encode(), "the length of the body")
    if status in (204, 304):
        S.check(total == 0, "no body")


def ask(S, scope, messages=None, which="all"):
    with Tree(S, {"d": {"a": b"content", "sub": {"index.html": b"index"}}}, {"d/a": MTIME}) as t:
        app = build(t, which)
        ch = Channel(messages)
        with Workers():
            run(app(scope, ch.receive, ch.send))
    wellformed(S, ch.sent, scope["method"] == "HEAD")
    S.cover(str(ch.status))
    return ch


# header, path, prefixes of its value, characters of the rest
CASES = {
    "cookie": ("/cookies", ["", "a=", 'a="\\', "session=", "session=e30.x.", 'a="\\00'], "=;,\"\\ 01\x80\xff$a"),
    "range": ("/static/a", ["", "bytes=", "bytes=0-", "bytes=-", "bytes=1-1,"], "0-9,= x\xb2"),
    "if-range": ("/static/a", ["", '"', "Tue, 14 Nov 2023 22:13:2"], "0\" ,W/x\xff"),
    "if-none-match": ("/static/a", ["", "W/", '"'], "*\",W/ x\xff"),
    "if-modified-since": ("/static/a", ["", "Tue, 14 Nov 2023 22:13:", "Tue, 14 Nov ", "14 Nov 20", "Sun Nov 1"], "0 9:,-+G\xff"),
    "accept-encoding": ("/plain", ["", "gzip", "gzip;q=", "*;"], "q=0.;, *\xff"),
    "origin": ("/plain", ["", "https://a.or", "https://a."], "gb.*:\\\"\xff"),
    "authorization": ("/plain", ["", "Basic ", "basic"], "a =\xff:"),
    "host": ("/slash", ["", "a.org", "[::1]", "x.example.org"], ":@/?#.%0a \xff"),
    "x-where": ("/away/x", ["", "?"], "?#%0a \"<\xff"),
    "content-length": ("/plain", ["", "1"], "-0+a \xff"),
}


def h_header(S):
    """Any value of a header that the framework looks at."""
    name = S.choice("name", sorted(CASES))
    path, prefixes, alphabet = CASES[name]
    value = S.choice("prefix", prefixes) + S.str("value", 0, S.q(3, 4), alphabet=alphabet)
    method = S.choice("method", ["GET", "HEAD"])
    headers = [(name.encode(), value.encode("latin-1"))]
    if name == "if-range":
        headers.append((b"range", b"bytes=1-2"))
    ask(S, http_scope(path, method=method, headers=headers))


def h_preflight(S):
    """Any preflight, and any method."""
    which = S.choice("which", ["origin", "method", "headers", "verb"])
    v = S.str("value", 0, S.q(3, 4), alphabet="x-aGET*, \"\xff")
    headers = [
        (b"origin", v.encode("latin-1") if which == "origin" else b"https://a.org"),
        (b"access-control-request-method", v.encode("latin-1") if which == "method" else b"GET"),
        (b"access-control-request-headers", v.encode("latin-1") if which == "headers" else b"x-a"),
    ]
    path = S.choice("path", ["/plain", "/class", "/static/a", "/"])
    ask(S, http_scope(path, method=v if which == "verb" else "OPTIONS", headers=headers[: 1 if which == "verb" else 3]))


TYPES = ["", "multipart/form-data", "multipart/form-data; boundary=", "multipart/form-data; boundary=b; charset=", "application/x-www-form-urlencoded; charset="]


def h_form(S):
    """Any content type and any small body."""
    ctype = S.choice("type", TYPES)
    if ctype.endswith("charset="):
        ctype = ctype + S.choice("charset", ["", "utf-8", "UTF8", "latin-1", "nothing", "\xff", '"', "hex", "idna", "utf-16"])
    else:
        ctype = ctype + S.str("rest", 0, 1, alphabet="b;=\"\\ \xff8")
    body = S.choice("lead", [b"", b"--b", b"--b\r\n", b'--b\r\nContent-Disposition: form-data; name="a"\r\n\r\n', b"--b\r\nContent-Disposition: form-data", b'--b\r\nContent-Disposition: form-data; filename="f"\r\n\r\nx'])
    body = body + S.bytes("body", 0, S.q(2, 3), alphabet=b"-\r\n:=&%;b\xff\x00")
    cut = S.flag("cut")
    messages = [{"type": "http.request", "body": body[: len(body) // 2], "more_body": True}, {"type": "http.request", "body": body[len(body) // 2 :]}] if cut else [{"type": "http.request", "body": body}]
    ask(S, http_scope("/form", method="POST", headers=[(b"content-type", ctype.encode("latin-1"))]), messages)


def h_path(S):
    """Any path."""
    lead = S.choice("lead", ["/", "/static/", "/static/a", "/static/sub", "/item/1/2.5/", "/item/1/", "/item/1/2.5", "/item/", "/away/", "/slash", "", "/static"])
    path = lead + S.str("rest", 0, S.q(2, 3), alphabet="/.0a%?#\\\n\r\x00 \xe9\u20ac")
    if lead.startswith("/item/"):
        path = path + S.choice("tail", ["", "/u/p"])
    method = S.choice("method", ["GET", "HEAD"])
    root = S.choice("root", ["", "/r"])
    ask(S, http_scope(root + path, method=method, root_path=root, headers=[(b"host", b"testserver")]))


def h_query(S):
    """Any query string of ASCII characters, with escapes of any bytes."""
    q = S.choice("lead", ["", "a=", "%", "%F", "a=1&"]) + S.str("query", 0, S.q(3, 4), alphabet="=&;%+F0a#?\x7f")
    path = S.choice("path", ["/query", "/slash"])
    ask(S, http_scope(path, query=q.encode("ascii")))


def h_hosts(S):
    """Any host where only some are trusted."""
    host = S.choice("lead", ["", "a.org", "b.org", "x.example.org", "www.b.org"]) + S.str("host", 0, S.q(3, 4), alphabet=".:0@/?# w\xff")
    ask(S, http_scope(S.choice("path", ["/plain", "/host"]), headers=[(b"host", host.encode("latin-1"))]), which="hosts")


ASSUMPTIONS = [
    "the application's own code does not fail: it reads cookies, forms, the query, path parameters, headers and the session, but not the URL of a request with a malformed Host; brackets in a Host enclose an address",
    "header values hold no line ends (servers refuse them); query strings are ASCII; numbers have less than 4300 digits",
    "compression, signatures and the file system are models in symbolic runs (real in replay)",
]
HARNESSES = [
    dict(name="h_header", covers=["200", "206", "304", "400", "416"], bounds="11 headers, each with one of <= 6 prefixes and every <= 3 (thorough 4) characters of its alphabet; GET and HEAD; all middleware"),
    dict(name="h_preflight", covers=["200", "400", "405"], bounds="every origin, requested method, requested header list or method of <= 3 (4) characters of 11, on 4 paths"),
    dict(name="h_form", covers=["200", "400"], bounds="3 content types with any of 8 characters behind, 2 with 10 character sets, 6 beginnings of a body and every <= 2 (3) bytes of 11, whole or in two messages"),
    dict(name="h_path", covers=["200", "404", "307"], bounds="12 beginnings and every <= 2 (3) characters of 14, for parameters with or without more path behind them; with or without a root path; GET and HEAD"),
    dict(name="h_query", covers=["200", "307"], bounds="5 beginnings and every <= 3 (4) characters of 11"),
    dict(name="h_hosts", covers=["200", "400", "404"], bounds="5 beginnings and every <= 3 (4) characters of 10"),
]
