"""C37: unhandled errors give one 500 response and are always re-raised."""
from hlib import Channel, drive, http_scope, ws_scope

from starlette.applications import Starlette
from starlette.middleware.errors import ServerErrorMiddleware
from starlette.requests import Request
from starlette.responses import PlainTextResponse, StreamingResponse
from starlette.routing import Route


class Failure(Exception):
    pass


def text_exception(text):
    return Failure(text)


def attempt(app, scope, channel=None):
    ch = channel or Channel()
    try:
        drive(app(scope, ch.receive, ch.send))
    except Exception as e:
        return ch, e
    return ch, None


START = {"type": "http.response.start", "status": 200, "headers": [(b"a", b"b")]}
SENT = [
    [],
    [{"type": "http.response.push", "path": "/"}],
    [START],
    [START, {"type": "http.response.body", "body": b"x", "more_body": True}],
    [START, {"type": "http.response.body", "body": b"x"}],
]


def handler_of(S, kind, calls):
    def sync(request, exc):
        calls.append((request, exc))
        return PlainTextResponse("custom", status_code=503)

    async def waiting(request, exc):
        calls.append((request, exc))
        return PlainTextResponse("custom", status_code=503)

    return {"none": None, "sync": sync, "async": waiting}[kind]


def h_error(S):
    """Any exception at any point of a response."""
    calls = []
    before = S.choice("sent", SENT)
    exc = Failure(S.choice("text", ["", "x", "<\u20ac\n", "\udc80", "\ud800\U0001f600"]))
    kind = S.choice("handler", ["none", "sync", "async"])
    debug = S.flag("debug")
    accept = S.choice("accept", [None, b"text/html,*/*", b"text/plain"])
    chain = S.choice("chain", ["none", "cause", "context"])
    cause = KeyError("earlier")

    async def app(scope, receive, send):
        for m in before:
            await send(dict(m))
        if chain == "cause":
            raise exc from cause
        if chain == "context":
            try:
                raise cause
            except KeyError:
                raise exc
        raise exc

    mw = ServerErrorMiddleware(app, handler=handler_of(S, kind, calls), debug=debug)
    scope = http_scope("/p", headers=[] if accept is None else [(b"accept", accept)])
    ch, error = attempt(mw, scope)
    S.check(error is exc, "the exception is re-raised")
    S.check(exc.__cause__ is (cause if chain == "cause" else None) and exc.__suppress_context__ == (chain == "cause"), "with its cause")
    S.check(chain != "context" or exc.__context__ is cause, "with its context")
    S.check(ch.sent[: len(before)] == before, "messages before")
    rest = ch.sent[len(before):]
    if START in before:
        S.check(rest == [], "no second response")
        S.cover("started")
        return
    S.check([m["type"] for m in rest] == ["http.response.start", "http.response.body"], "one response")
    S.check(not rest[1].get("more_body", False), "a complete response")
    if debug:
        S.check(rest[0]["status"] == 500, "status")
        html = accept is not None and accept.startswith(b"text/html")
        S.check((b"content-type", b"text/html; charset=utf-8" if html else b"text/plain; charset=utf-8") in rest[0]["headers"], "type of the debug page")
        S.cover("debug")
    elif kind == "none":
        S.check(rest[0]["status"] == 500 and rest[1]["body"] == b"Internal Server Error", "plain 500")
        S.cover("plain")
    else:
        S.check(len(calls) == 1 and calls[0][1] is exc and isinstance(calls[0][0], Request) and calls[0][0].scope["path"] == "/p", "the handler runs once with the request and the exception")
        S.check(rest[0]["status"] == 503 and rest[1]["body"] == b"custom", "the handler's response")
        S.cover("handler")


def h_text(S):
    """Any exception text."""
    text = S.str("text", 0, S.q(2, 3), ranges=[(0, 0x10FFFF)])
    exc = Failure(text)
    calls = []
    kind = S.choice("handler", ["none", "sync", "async"])
    debug = S.flag("debug")
    html = S.flag("html")

    async def app(scope, receive, send):
        raise exc

    mw = ServerErrorMiddleware(app, handler=handler_of(S, kind, calls), debug=debug)
    ch, error = attempt(mw, http_scope("/p", headers=[(b"accept", b"text/html")] if html else []))
    S.check(error is exc, "the exception is re-raised")
    S.check([m["type"] for m in ch.sent] == ["http.response.start", "http.response.body"], "one response")
    S.check(not ch.sent[1].get("more_body", False), "a complete response")
    S.check(ch.status == (500 if debug or kind == "none" else 503), "status")
    S.cover("html" if html and debug else "text" if debug else "off")


def h_none(S):
    """Without an exception the messages pass unchanged."""
    calls = []
    msgs = [{"type": "http.response.start", "status": S.int("status", 200, 599), "headers": [(b"a", S.bytes("v", 0, 2))]}]
    for i in range(S.pick("n", 0, 2)):
        msgs.append({"type": "http.response.body", "body": S.bytes("b%d" % i, 0, 2), "more_body": True})
    msgs.append({"type": "http.response.body", "body": b""})

    async def app(scope, receive, send):
        for m in msgs:
            await send(m)

    mw = ServerErrorMiddleware(app, handler=handler_of(S, S.choice("handler", ["none", "sync"]), calls), debug=S.flag("debug"))
    ch, error = attempt(mw, http_scope())
    S.check(error is None and calls == [] and S.eq(ch.sent, msgs), "messages")
    S.cover("none")


def h_send_fails(S):
    """A failure of the server's send is not answered with a second response."""
    at = S.pick("at", 0, 2)
    calls = []
    ch = Channel()
    boom = OSError("gone")

    async def failing(message):
        if len(ch.sent) == at:
            ch.sent.append(None)
            raise boom
        ch.sent.append(message)

    async def app(scope, receive, send):
        await send(dict(START))
        await send({"type": "http.response.body", "body": b"x", "more_body": True})
        await send({"type": "http.response.body", "body": b"x"})

    mw = ServerErrorMiddleware(app, handler=handler_of(S, S.choice("handler", ["none", "sync"]), calls), debug=S.flag("debug"))
    error = None
    try:
        drive(mw(http_scope(), ch.receive, failing))
    except OSError as e:
        error = e
    S.check(error is boom, "the error is raised")
    S.check(len(ch.sent) == at + 1, "nothing is sent afterwards")
    S.cover("failed")


def h_other(S):
    """Errors on other connections are raised, without a response."""
    exc = Failure("x")
    calls = []

    async def app(scope, receive, send):
        raise exc

    mw = ServerErrorMiddleware(app, handler=handler_of(S, "sync", calls), debug=S.flag("debug"))
    scope = S.choice("scope", [ws_scope(), {"type": "lifespan"}])
    ch, error = attempt(mw, scope)
    S.check(error is exc and ch.sent == [] and calls == [], "raised")
    S.cover(scope["type"])


def h_twice(S):
    """Requests to one application do not affect each other."""
    calls = []
    fails = [S.flag("fail%d" % i) for i in range(3)]
    todo = list(fails)
    late = S.flag("late")
    exc = Failure("x")

    async def body():
        yield b"a"
        raise exc

    async def endpoint(request):
        if todo.pop(0):
            raise exc
        return PlainTextResponse("ok")

    kind = S.choice("handler", ["none", "sync", "async"])
    handler = handler_of(S, kind, calls)
    debug = S.choice("debug", [None, False, True, "set", "unset"])
    app = Starlette(**{} if debug is None else {"debug": debug in (True, "unset")}, routes=[Route("/", endpoint)], exception_handlers={} if handler is None else {(500 if late else Exception): handler})
    if debug in ("set", "unset"):
        app.debug = debug == "set"
    for f in fails:
        del calls[:]
        ch, error = attempt(app, http_scope())
        S.check(len(ch.sent) == 2, "one response")
        if f:
            S.check(error is exc, "re-raised")
            if debug in (True, "set"):
                S.check(ch.status == 500 and calls == [] and b"Failure" in ch.body, "the debug page")
                S.cover("debug")
                continue
            S.check(ch.status == (500 if kind == "none" else 503), "status")
            S.check(len(calls) == (kind != "none"), "handler")
            S.check(ch.body == (b"Internal Server Error" if kind == "none" else b"custom"), "body")
            S.cover("failed")
        else:
            S.check(error is None and ch.status == 200 and ch.body == b"ok" and calls == [], "the response")
            S.cover("served")


ASSUMPTIONS = ["error handlers return a response and do not raise", "functions sent to worker threads run in place (native replay uses real threads)", "representations of local variables in tracebacks are opaque"]
HARNESSES = [
    dict(name="h_error", covers=["started", "debug", "plain", "handler"], bounds="an exception with 5 texts after 5 prefixes of a response; 3 handlers x debug x 3 Accept headers"),
    dict(name="h_text", covers=["html", "text", "off"], bounds="an exception with any text of <= 2 (thorough 3) characters, all of Unicode incl. surrogates; 3 handlers x debug x HTML accepted"),
    dict(name="h_none", covers=["none"], bounds="every status, header value and body chunks of <= 2 bytes, <= 2 extra chunks"),
    dict(name="h_send_fails", covers=["failed"], bounds="each of 3 messages fails to be sent"),
    dict(name="h_other", covers=["websocket", "lifespan"], bounds="websocket and lifespan connections"),
    dict(name="h_twice", covers=["failed", "served", "debug"], bounds="every success/failure sequence of three requests, 3 handlers registered for 500 or Exception, debug mode given, set later or not"),
]
