"""C46: WSGI applications see a faithful environ and their output is relayed."""
import sys
import warnings

from hlib import http_scope, run

warnings.simplefilter("ignore")

from starlette.middleware.wsgi import WSGIMiddleware  # noqa: E402


class Boom(Exception):
    pass


def serve(app, scope, messages=None):
    """(sent, exception)"""
    messages = [{"type": "http.request", "body": b"", "more_body": False}] if messages is None else list(messages)
    sent = []

    async def receive():
        return messages.pop(0)

    async def send(m):
        sent.append(m)

    async def go():
        try:
            await WSGIMiddleware(app)(scope, receive, send)
        except Exception as e:
            return e
        return None

    return sent, run(go())


class Capture:
    def __init__(self, read=None):
        self.environ = None
        self.calls = 0
        self.body = None
        self.read = read

    def __call__(self, environ, start_response):
        self.calls += 1
        self.environ = environ
        if self.read is not None:
            self.body = self.read(environ["wsgi.input"])
        start_response("200 OK", [])
        return [b""]


def native(text):
    """A text as WSGI carries it."""
    return text.encode("utf-8").decode("latin-1")


def captured(S, scope, messages=None, read=None):
    app = Capture(read)
    sent, error = serve(app, scope, messages)
    S.check(error is None and app.calls == 1, "the application runs once")
    return app


def h_path(S):
    """Script name and path."""
    n = S.q(2, 3)
    root = S.choice("root", ["", "/a", "/\xe9/b", "any"])
    if root == "any":
        root = "/" + S.str("root text", 1, n, exclude="/?#")
    inside = S.flag("inside")
    if inside:
        path = root + S.choice("slash", ["", "/"])
        if path[-1:] == "/":
            path = path + S.str("rest", 0, n)
        elif path == "":
            path = "/"
    else:
        path = "/" + S.str("path", 0, n + 1)
    app = captured(S, http_scope(path, root_path=root))
    e = app.environ
    S.check(S.eq(e["SCRIPT_NAME"], native(root)), "the script name")
    below = len(root) > 0 and S.Or(path == root, path[: len(root) + 1] == root + "/")
    if below:
        S.check(S.eq(e["PATH_INFO"], native(path[len(root) :])), "the path below the script name")
        S.cover("below")
    else:
        S.check(S.eq(e["PATH_INFO"], native(path)), "the path")
        S.cover("other")


def h_request(S):
    """Method, query string, server, scheme, client."""
    method = S.str("method", 1, S.q(3, 5), ranges=[("A", "Z")])
    query = S.bytes("query", 0, S.q(3, 5))
    scheme = S.choice("scheme", ["http", "https"])
    version = S.choice("version", ["1.0", "1.1", "2"])
    host = S.str("host", 1, 2, ranges=[("a", "z"), (".", ".")])
    port = S.int("port", 1, 65535)
    server = S.choice("server", ["given", "none", "absent"])
    client = S.choice("client", ["given", "none", "absent"])
    scope = http_scope("/", method=method, query=query, scheme=scheme, http_version=version, server=(host, port), client=("1.2.3.4", 5))
    if server == "none":
        scope["server"] = None
    if server == "absent":
        del scope["server"]
    if client == "none":
        scope["client"] = None
    if client == "absent":
        del scope["client"]
    e = captured(S, scope).environ
    S.check(S.eq(e["REQUEST_METHOD"], method), "method")
    S.check(S.eq(e["QUERY_STRING"], query.decode("latin-1")), "query string")
    S.check(e["wsgi.url_scheme"] == scheme and e["SERVER_PROTOCOL"] == "HTTP/" + version, "scheme and protocol")
    if server == "given":
        S.check(S.And(S.eq(e["SERVER_NAME"], host), e["SERVER_PORT"] == port), "server address")
    else:
        S.check(e["SERVER_NAME"] == "localhost" and e["SERVER_PORT"] == 80, "a default address")
    S.check(e.get("REMOTE_ADDR") == ("1.2.3.4" if client == "given" else None), "client address")
    S.cover(server)


def h_headers(S):
    """Every header, repeated ones joined."""
    n = S.pick("n", 0, S.q(3, 4))
    names = []
    for i in range(n):
        kind = S.choice("kind%d" % i, [b"content-type", b"content-length", b"host", b"cookie", "any"])
        if kind == "any":
            kind = S.bytes("name%d" % i, 1, 2, alphabet=b"ax-1")
        names.append(kind)
    values = [S.bytes("value%d" % i, 0, 2) for i in range(n)]
    e = captured(S, http_scope("/", headers=list(zip(names, values)))).environ
    seen = []
    for i in range(n):
        if any([bool(S.eq(names[i], names[j])) for j in range(i)]):
            continue
        name = names[i]
        joined = crumbs = values[i]
        for j in range(i + 1, n):
            if S.eq(names[j], name):
                joined = joined + b"," + values[j]
                crumbs = crumbs + b"; " + values[j]
                S.cover("repeated")
        if name == b"content-type" or name == b"content-length":
            key = name.decode("latin-1").upper().replace("-", "_")
            S.check("HTTP_" + key not in e, "content headers have no prefix")
            S.cover("content")
        else:
            key = "HTTP_" + name.decode("latin-1").upper().replace("-", "_")
            S.cover("other")
        S.check(key in e, "the header is there")
        same = S.eq(e[key], joined.decode("latin-1"))
        if name == b"cookie":
            same = S.Or(same, S.eq(e[key], crumbs.decode("latin-1")))
        S.check(same, "with its values in order")
        seen.append(key)
    extra = [k for k in e if k[:5] == "HTTP_" or k == "CONTENT_TYPE" or k == "CONTENT_LENGTH"]
    S.check(len(extra) == len(seen), "no other headers")
    if n == 0:
        S.cover("none")


def h_body(S):
    """The request body whatever its chunking."""
    n = S.pick("n", 1, S.q(3, 4))
    chunks = [S.bytes("c%d" % i, 0, 2) for i in range(n)]
    msgs = []
    for i, c in enumerate(chunks):
        m = {"type": "http.request", "more_body": i < n - 1}
        if len(c) or S.flag("key%d" % i):
            m["body"] = c
        if i == n - 1 and S.flag("short"):
            del m["more_body"]
        msgs.append(m)
    how = S.choice("how", ["read", "read1", "lines"])
    if how == "read":
        read = lambda f: f.read()
    elif how == "read1":

        def read(f):
            out = b""
            while True:
                c = f.read(1)
                if not c:
                    return out
                out = out + c

    else:

        def read(f):
            out = b""
            for line in f:
                out = out + line
            return out

    app = captured(S, http_scope("/", method="POST"), msgs, read)
    whole = b""
    for c in chunks:
        whole = whole + c
    S.check(S.eq(app.body, whole), "the whole body")
    S.cover(how)


def header(S, i):
    kind = S.choice("name%d" % i, ["X-A", "set-cookie", "any"])
    if kind == "any":
        kind = "X" + S.str("name text%d" % i, 0, S.q(1, 2), alphabet="aA-1z")
    value = S.str("value%d" % i, 0, S.q(1, 2), ranges=[(0x21, 0x7E), (0xA1, 0xFF)])
    return kind, value


def h_output(S):
    """Status, headers and chunks."""
    status = S.int("status", 100, 599)
    reason = S.str("reason", 0, S.q(1, 2), ranges=[(" ", "~")])
    headers = [header(S, i) for i in range(S.pick("headers", 0, 2))]
    chunks = [S.bytes("c%d" % i, 0, S.q(1, 2)) for i in range(S.pick("chunks", 0, S.q(2, 3)))]
    form = S.choice("form", ["list", "generator", "lazy", "tuple", "iterator"])

    def app(environ, start_response):
        if form != "lazy":
            start_response(str(status) + " " + reason, headers)
        if form == "list":
            return list(chunks)
        if form == "tuple":
            return tuple(chunks)
        if form == "iterator":
            return iter(chunks)

        def gen():
            if form == "lazy":
                start_response(str(status) + " " + reason, headers)
            for c in chunks:
                yield c

        return gen()

    sent, error = serve(app, http_scope("/"))
    S.check(error is None, "no error")
    S.check(sent[0]["type"] == "http.response.start" and all(m["type"] == "http.response.body" for m in sent[1:]), "messages")
    S.check(sent[0]["status"] == status, "status")
    got = [tuple(h) for h in sent[0]["headers"]]
    S.check(len(got) == len(headers) and S.And(*[S.And(S.eq(g[0], n.lower().encode("latin-1")), S.eq(g[1], v.encode("latin-1"))) for g, (n, v) in zip(got, headers)]), "headers")
    bodies = sent[1:]
    S.check(len(bodies) >= 1 and all(m.get("more_body", False) for m in bodies[:-1]) and not bodies[-1].get("more_body", False), "completed once")
    parts = [m.get("body", b"") for m in bodies]
    S.check(len([1 for p in parts if len(p)]) == len([1 for c in chunks if len(c)]), "the same chunks")
    S.check(S.And(*[S.eq(p, c) for p, c in zip([p for p in parts if len(p)], [c for c in chunks if len(c)])]), "in order and unchanged")
    S.cover(form)


def h_exceptions(S):
    """Exceptions propagate as they are."""
    at = S.choice("at", ["call", "started", "first", "second", "end"])
    exc = S.choice("exc", [Boom("b"), ValueError("v")])
    lazy = S.flag("lazy")

    def body(environ, start_response):
        if at == "call":
            raise exc
        start_response("200 OK", [("a", "b")])
        if at == "started":
            raise exc
        yield b"x"
        if at == "first":
            raise exc
        yield b"y"
        if at == "second":
            raise exc
        yield b"z"
        raise exc

    def eager(environ, start_response):
        if at == "call":
            raise exc
        start_response("200 OK", [("a", "b")])
        raise exc

    eagerly = not lazy and at in ("call", "started")
    sent, error = serve(eager if eagerly else body, http_scope("/"))
    S.check(error is exc, "the exception itself")
    order = [{"type": "http.response.start", "status": 200, "headers": [(b"a", b"b")]}] + [{"type": "http.response.body", "body": b, "more_body": True} for b in (b"x", b"y", b"z")]
    most = {"call": 0, "started": 1, "first": 2, "second": 3, "end": 4}[at]
    S.check(len(sent) <= most and sent == order[: len(sent)], "nothing but a part of the response, never completed")
    S.cover(at)


def h_exc_info(S):
    """An error reported through start_response."""
    started = S.flag("started")
    exc = Boom("b")

    def app(environ, start_response):
        try:
            if started:
                start_response("200 OK", [("a", "b")])
            raise exc
        except Boom:
            start_response("500 Oops", [("c", "d")], sys.exc_info())
        return [b"error"]

    sent, error = serve(app, http_scope("/"))
    S.check(error is exc, "the exception itself is raised")
    S.check([m for m in sent if m["type"] == "http.response.start"] == [{"type": "http.response.start", "status": 200 if started else 500, "headers": [(b"a", b"b") if started else (b"c", b"d")]}], "one response")
    S.cover("started" if started else "fresh")


def h_large(S):
    """Many headers and chunks, large ones too."""
    b = S.bytes("b", 0, 1)
    names = [b"x-%d" % (i % 100) for i in range(130)]
    values = [b"v%d" % i for i in range(130)]
    values[129] = b
    chunks = [b"c%d." % i for i in range(130)] + [b"y" * 70000, b]
    msgs = [{"type": "http.request", "body": c, "more_body": i + 1 < len(chunks)} for i, c in enumerate(chunks)]
    seen = []

    def app(environ, start_response):
        seen.append((environ, environ["wsgi.input"].read()))
        start_response("200 OK", [("x-%d" % i, str(i)) for i in range(130)])
        return chunks

    sent, error = serve(app, http_scope("/", method="POST", headers=list(zip(names, values))), msgs)
    S.check(error is None, "no error")
    e, body = seen[0]
    whole = b""
    for c in chunks:
        whole = whole + c
    S.check(S.eq(body, whole), "the whole body")
    for i in range(100):
        want = values[i] + b"," + values[i + 100] if i < 30 else values[i]
        S.check(S.eq(e["HTTP_X_%d" % i], want.decode("latin-1")), "header")
    S.check(sent[0]["headers"] == [(b"x-%d" % i, b"%d" % i) for i in range(130)], "response headers")
    S.check(len(sent) == len(chunks) + 2, "one message per chunk and a last one")
    S.check(S.And(*[S.And(S.eq(m["body"], c), m["more_body"] is True) for m, c in zip(sent[1:], chunks)]), "chunks in order")
    S.cover("large")


ASSUMPTIONS = [
    "header names are ASCII tokens without underscores; response header values have no surrounding white space (it is stripped)",
    "the client sends its whole body (a disconnect before its end is not considered)",
    "the WSGI application's thread runs in place, its messages being queued before any is sent (native replay uses real threads)",
    "repeated Cookie headers may be joined by a comma or, as cookies are, by a semicolon",
    "status lines have a reason phrase, possibly empty, after a space",
]
HARNESSES = [
    dict(name="h_path", covers=["below", "other"], bounds="every root path of 1-2 (thorough 3) characters and 3 given ones, every rest or path of <= 2 (3) characters, all of Unicode"),
    dict(name="h_request", covers=["given", "none", "absent"], bounds="every method of <= 3 (thorough 5) letters, query string of <= 3 (5) bytes, host, port; schemes, versions, missing addresses"),
    dict(name="h_headers", covers=["repeated", "content", "other", "none"], bounds="<= 3 (thorough 4) headers, names content-type, content-length, host, cookie or any of <= 2 characters over ax-1, values any <= 2 bytes"),
    dict(name="h_body", covers=["read", "read1", "lines"], bounds="1..3 (thorough 4) chunks of any <= 2 bytes, absent keys, 3 ways of reading"),
    dict(name="h_output", covers=["list", "generator", "lazy", "tuple", "iterator"], bounds="every status, reason of <= 1 (thorough 2) characters, <= 2 headers with any name suffix and latin-1 value of <= 1 (thorough 2) characters, <= 2 (thorough 3) chunks"),
    dict(name="h_exceptions", covers=["call", "started", "first", "second", "end"], bounds="5 points, 2 exceptions"),
    dict(name="h_exc_info", covers=["started", "fresh"], bounds="before and after the response started"),
    dict(name="h_large", covers=["large"], bounds="130 request and response headers, 132 chunks each way, one of 70000 bytes, around any <= 1 byte"),
]
