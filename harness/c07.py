"""C07: class-based endpoints call exactly the handler of the method."""
from hlib import call, http_scope

from starlette.applications import Starlette
from starlette.endpoints import HTTPEndpoint
from starlette.exceptions import HTTPException
from starlette.requests import Request
from starlette.responses import Response
from starlette.routing import Route, Router

STANDARD = ["GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS"]


def make(calls, have, sync, bases=(HTTPEndpoint,)):
    """An endpoint class with handlers for the methods in `have`."""
    ns = {}
    for m in have:
        if m in sync:
            def handler(self, request, m=m):
                calls.append((m, isinstance(request, Request), request.method))
                return Response(b"by " + m.encode("ascii"), headers={"x-by": m})
        else:
            async def handler(self, request, m=m):
                calls.append((m, isinstance(request, Request), request.method))
                return Response(b"by " + m.encode("ascii"), headers={"x-by": m})
        ns[m.lower()] = handler
    return type("Endpoint", bases, ns)


def verify(S, ch, calls, have, method):
    S.observe("out", [ch.status, calls])
    who = None
    for m in have:
        if method == m:
            who = m
    if who is None and method == "HEAD" and "GET" in have:
        who = "GET"
    if who is not None:
        S.cover("handled")
        S.check(len(calls) == 1, "not exactly one handler call")
        S.check(calls[0][0] == who, "wrong handler")
        S.check(calls[0][1], "not a request")
        S.check(S.eq(calls[0][2], method), "another request method")
        S.check(ch.status == 200 and ch.header(b"x-by") == [who.encode("ascii")], "response is not the handler's")
    else:
        S.cover("405")
        S.check(calls == [], "a handler ran for a method without handler")
        S.check(ch.status == 405, "not answered 405")
        allow = ch.header(b"allow")
        S.check(len(allow) == 1, "Allow header")
        got = [m for m in allow[0].decode("latin-1").split(", ") if m]
        S.check(sorted(got) == sorted(have), "Allow does not list exactly the methods with handlers")


def run_it(S, kind, cls, method, calls):
    if kind == "bare":
        app = cls
    elif kind == "router":
        app = Router([Route("/", cls)])
    else:
        app = Starlette(routes=[Route("/", cls)])
    return call(app, http_scope(path="/", method=method))


def subset(S, names):
    return [m for m in names if S.flag("has_" + m)]


def h_methods(S):
    """Which handler runs for a method, or 405 with Allow."""
    have = subset(S, STANDARD)
    sync = STANDARD if S.flag("sync") else ["POST", "GET"]
    method = S.choice("method", STANDARD + ["TRACE", "CONNECT", "FOO"])
    kind = S.choice("kind", ["bare", "router", "app"])
    calls = []
    ch = run_it(S, kind, make(calls, have, sync), method, calls)
    verify(S, ch, calls, have, method)


def h_token(S):
    """Any method token: attributes that are not handlers are never called."""
    have = subset(S, ["GET", "PUT", "HEAD"])
    n = S.q(5, 8)
    method = S.str("method", 1, n, ranges=[("A", "Z"), ("_", "_")])
    calls = []
    ch = run_it(S, "bare", make(calls, have, ["PUT"]), method, calls)
    verify(S, ch, calls, have, method)


def h_attributes(S):
    """Methods named like attributes of the endpoint object."""
    have = subset(S, ["GET", "POST"])
    method = S.choice("method", ["DISPATCH", "SCOPE", "SEND", "RECEIVE", "METHOD_NOT_ALLOWED", "_ALLOWED_METHODS", "__INIT__", "__AWAIT__", "__CLASS__"])
    calls = []
    ch = run_it(S, S.choice("kind", ["bare", "app"]), make(calls, have, []), method, calls)
    verify(S, ch, calls, have, method)


def h_inherit(S):
    """Handlers inherited, overridden or disabled by None."""
    calls = []
    base = make(calls, ["GET", "POST"], ["POST"])
    own = subset(S, ["POST", "DELETE"])
    cls = make(calls, own, [], bases=(base,))
    have = ["GET", "POST"] + [m for m in own if m != "POST"]
    if S.flag("disable"):
        gone = S.choice("gone", ["GET", "POST"])
        setattr(cls, gone.lower(), None)
        have = [m for m in have if m != gone]
    method = S.choice("method", STANDARD)
    ch = run_it(S, "bare", cls, method, calls)
    verify(S, ch, calls, have, method)


def h_custom_405(S):
    """In an application the 405 is an HTTP exception that a handler sees, with its headers."""
    have = subset(S, ["GET", "POST", "PATCH"])
    method = S.choice("method", STANDARD)
    calls = []
    seen = []

    async def on405(request, exc):
        seen.append((exc.status_code, dict(exc.headers or {})))
        return Response(b"custom", status_code=418)

    key = 405 if S.flag("by_status") else HTTPException
    app = Starlette(routes=[Route("/", make(calls, have, []))], exception_handlers={key: on405})
    ch = call(app, http_scope(path="/", method=method))
    served = method in have or (method == "HEAD" and "GET" in have)
    S.check(served == (len(calls) == 1), "handler")
    S.check(served == (seen == []), "the 405 did not reach the custom handler")
    if not served:
        S.cover("custom")
        S.check(ch.status == 418, "custom handler's response")
        S.check(seen[0][0] == 405, "status of the exception")
        S.check(sorted(x for x in seen[0][1]["Allow"].split(", ") if x) == sorted(have), "Allow of the exception")


def h_request(S):
    """The handler gets the request: its body, headers, parameters and state."""
    chunks = [S.bytes("c%d" % i, 0, 2) for i in range(S.pick("n", 1, S.q(2, 3)))]
    v = S.bytes("v", 1, 2, ranges=[(33, 126)])
    kind = S.choice("kind", ["bare", "router", "app"])
    via = S.choice("via", ["body", "stream", "receive"])
    seen = []

    class Endpoint(HTTPEndpoint):
        async def post(self, request):
            if via == "body":
                body = await request.body()
            elif via == "stream":
                body = b""
                async for chunk in request.stream():
                    body += chunk
            else:
                body, more = b"", True
                while more:
                    m = await request.receive()
                    body, more = body + m.get("body", b""), m.get("more_body", False)
            seen.append((body, request.headers["x-v"], request.scope, request.state.s))
            return Response(body, headers={"x-by": "post"})

    app = Endpoint if kind == "bare" else Router([Route("/", Endpoint)]) if kind == "router" else Starlette(routes=[Route("/", Endpoint)])
    scope = http_scope(path="/", method="POST", headers=[(b"x-v", v)], state={"s": 1})
    messages = [{"type": "http.request", "body": c, "more_body": i < len(chunks) - 1} for i, c in enumerate(chunks)]
    ch = call(app, scope, messages)
    want = b"".join(chunks)
    S.check(len(seen) == 1, "not exactly one handler call")
    S.check(S.eq(seen[0][0], want), "the body")
    S.check(S.eq(seen[0][1], v.decode("latin-1")), "the headers")
    S.check(seen[0][2] is scope and seen[0][3] == 1, "the scope and the state")
    S.check(S.eq(ch.body, want) and ch.header(b"x-by") == [b"post"], "the response")
    S.cover(via)


ASSUMPTIONS = ["handlers are methods defined on the class; worker threads run in place"]
HARNESSES = [
    dict(name="h_methods", covers=["handled", "405"], bounds="every subset of 7 handlers x sync/async x 10 methods x bare/router/application"),
    dict(name="h_token", covers=["handled", "405"], bounds="8 handler subsets x every method token of length <= 5 (8) over A-Z and _"),
    dict(name="h_attributes", covers=["405"], bounds="9 method names that are attributes of the endpoint object"),
    dict(name="h_inherit", covers=["handled", "405"], bounds="inheritance, overriding and disabling of handlers x 7 methods"),
    dict(name="h_custom_405", covers=["custom"], bounds="8 handler subsets x 7 methods x handler by status or class"),
    dict(name="h_request", covers=["body", "stream", "receive"], bounds="every body of 1 or 2 (3) chunks of <= 2 bytes and header value of 1 or 2 characters; read in 3 ways; bare/router/application"),
]
