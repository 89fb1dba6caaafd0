"""C36: exceptions go to the most specific registered handler."""
from hlib import Channel, call, drive, http_scope, run, ws_scope

from starlette.applications import Starlette
from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
from starlette.exceptions import HTTPException, WebSocketException
from starlette.middleware.exceptions import ExceptionMiddleware
from starlette.requests import Request
from starlette.responses import PlainTextResponse, Response
from starlette.routing import Mount, Route, WebSocketRoute
from starlette.websockets import WebSocket


class Base(Exception):
    pass


class Mid(Base):
    pass


class Leaf(Mid):
    pass


class Other(Exception):
    pass


class Both(Mid, Other):
    pass


class Crossed(Other, Mid):
    pass


class MyHTTP(HTTPException):
    pass


class Odd(MyHTTP, Base):
    pass


CLASSES = {"Base": Base, "Mid": Mid, "Leaf": Leaf, "Other": Other, "Both": Both, "Crossed": Crossed, "MyHTTP": MyHTTP, "HTTP": HTTPException, "Odd": Odd}
RAISED = ["Base", "Leaf", "Both", "Crossed", "HTTP", "MyHTTP", "Odd", "Other"]


def is_http(name):
    return name in ("HTTP", "MyHTTP", "Odd")


class Log:
    def __init__(self):
        self.calls = []

    def handler(self, tag, sync):
        def plain(request, exc):
            self.calls.append((tag, request, exc))
            return PlainTextResponse("H:" + tag, status_code=299, headers={"x-h": tag})

        async def waiting(request, exc):
            self.calls.append((tag, request, exc))
            return PlainTextResponse("H:" + tag, status_code=299, headers={"x-h": tag})

        return plain if sync else waiting


def expected(S, registered, codes, name, status):
    """Tag of the handler for an exception, 'default' or None; status may be symbolic."""
    if is_http(name):
        for c in codes:
            if status == c:
                return str(c)
    for cls in CLASSES[name].__mro__:
        for tag in registered:
            if CLASSES.get(tag) is cls:
                return tag
        if cls is HTTPException:
            return "default"
    return None


def attempt(app, scope, messages=None):
    ch = Channel(messages)
    try:
        drive(app(scope, ch.receive, ch.send))
    except Exception as e:
        return ch, e
    return ch, None


def judge(S, want, log, ch, exc, error, started, status, scope, conn=Request):
    S.observe("sent", [m["type"] for m in ch.sent])
    n = len(started)
    S.check(ch.sent[:n] == started, "messages before the exception")
    if want is None:
        S.check(error is exc, "an exception without a handler propagates")
        S.check(log.calls == [] and len(ch.sent) == n, "nothing is sent and no handler runs")
        S.cover("propagated")
    elif started:
        S.check(error is not None and log.calls == [] and len(ch.sent) == n, "no handler response once the response has started, but an error")
        S.cover("started")
    elif want == "default":
        S.check(error is None and log.calls == [], "the default answer")
        S.check(ch.status == status and len(ch.sent) == 2, "status of the default answer")
        S.check(ch.header(b"x-e") == [b"1"], "headers of the default answer")
        S.check(ch.body == (b"detail" if status not in (204, 304) else b""), "body of the default answer")
        S.cover("default")
    else:
        S.check(error is None, "the exception is handled")
        S.check([t for t, r, e in log.calls] == [want], "the handler")
        S.check(log.calls[0][2] is exc, "the exception a handler gets")
        r = log.calls[0][1]
        S.check(isinstance(r, conn) and r.scope["path"] == scope["path"] and r.scope["headers"] == scope["headers"], "the request a handler gets")
        S.check(ch.status == 299 and ch.header(b"x-h") == [want.encode()] and ch.body == b"H:" + want.encode() and len(ch.sent) == 2, "the handler's response")
        S.cover("handled")


def make(name, status):
    if is_http(name):
        return CLASSES[name](status, "detail", {"x-e": "1"})
    return CLASSES[name]("text")


STARTED = [
    [],
    [{"type": "http.response.start", "status": 200, "headers": []}],
    [{"type": "http.response.start", "status": 200, "headers": []}, {"type": "http.response.body", "body": b"x", "more_body": True}],
]


def h_lookup(S):
    """Every set of handlers for every exception, before and after the response started."""
    name = S.choice("raised", RAISED)
    mro = [c.__name__ for c in CLASSES[name].__mro__]
    registered = [t for t in ("Base", "Mid", "Leaf", "Other", "MyHTTP", "HTTP") if CLASSES[t].__name__ in mro and S.flag("on" + t)]
    codes = [c for c in (404, 500) if is_http(name) and S.flag("on%d" % c)]
    status = S.int("status", 200, 599) if is_http(name) else 0
    started = S.choice("started", STARTED)
    log = Log()
    exc = make(name, status)

    async def app(scope, receive, send):
        for m in started:
            await send(dict(m))
        raise exc

    handlers = {}
    for t in [str(c) for c in codes] + registered:
        handlers[int(t) if t.isdigit() else CLASSES[t]] = log.handler(t, t in ("Mid", "404"))
    if S.flag("reverse"):
        handlers = dict(reversed(list(handlers.items())))
    mw = ExceptionMiddleware(app, handlers=handlers)
    scope = http_scope("/p")
    want = expected(S, registered, codes, name, status)
    ch, error = attempt(mw, scope)
    judge(S, want, log, ch, exc, error, started, status, scope)


def h_routes(S):
    """Exceptions of endpoints of an application, mounted or not."""
    name = S.choice("raised", RAISED)
    registered = [t for t in ("Base", "Mid", "Other", "HTTP") if S.flag("on" + t)]
    codes = [404] if S.flag("on404") else []
    status = S.choice("status", [404, 418, 304]) if is_http(name) else 0
    log = Log()
    exc = make(name, status)

    def sync_endpoint(request):
        raise exc

    async def endpoint(request):
        raise exc

    async def asgi(scope, receive, send):
        raise exc

    kind = S.choice("kind", ["sync", "async", "mount", "asgi"])
    if kind == "mount":
        routes = [Mount("/m", routes=[Route("/p", endpoint)])]
    elif kind == "asgi":
        routes = [Mount("/m", app=asgi)]
    else:
        routes = [Route("/m/p", sync_endpoint if kind == "sync" else endpoint)]
    sync = S.flag("sync")
    app = Starlette(routes=routes, exception_handlers={(int(t) if t.isdigit() else CLASSES[t]): log.handler(t, sync) for t in [str(c) for c in codes] + registered})
    scope = http_scope("/m/p")
    want = expected(S, registered, codes, name, status)
    ch, error = attempt(app, scope)
    if want is None:
        # the outermost layer answers 500 and re-raises
        S.check(error is exc and log.calls == [] and ch.status == 500, "propagates to the outermost layer")
        S.cover("propagated")
        return
    judge(S, want, log, ch, exc, error, [], status, scope)


def h_inner(S):
    """The response a handler gives is the only one; a second exception starts anew."""
    log = Log()
    first, second = S.choice("first", ["Base", "Other", "HTTP"]), S.choice("second", ["Leaf", "Other", "HTTP"])
    seq = [make(first, 404), make(second, 404)]
    registered = [t for t in ("Base", "Other") if S.flag("on" + t)]
    pending = list(seq)

    async def app(scope, receive, send):
        raise pending.pop(0)

    mw = ExceptionMiddleware(app, handlers={CLASSES[t]: log.handler(t, False) for t in registered})
    if S.flag("late"):
        mw.add_exception_handler(404, log.handler("404", True))
        codes = [404]
    else:
        codes = []
    for i, name in enumerate((first, second)):
        del log.calls[:]
        scope = http_scope("/p%d" % i)
        ch, error = attempt(mw, scope)
        judge(S, expected(S, registered, codes, name, 404), log, ch, seq[i], error, [], 404, scope)
    S.cover("two requests")


def asgi_class(app):
    class App:
        async def __call__(self, scope, receive, send):
            await app(scope, receive, send)

    return App()


def h_websocket(S):
    """Websocket endpoints: custom handlers, and the default close with code and reason."""
    calls = []
    code, reason = S.int("code", 1000, 4999), S.str("reason", 0, 2, ranges=[(32, 126)]) + S.choice("rest", ["", "r" * 121])
    kind = S.choice("kind", ["ws", "base", "sub"])
    on = S.flag("on")
    accept = S.flag("accept")

    class Sub(WebSocketException):
        pass

    exc = {"ws": WebSocketException(code, reason), "base": Base(), "sub": Sub(code, reason)}[kind]

    async def handler(websocket, e):
        calls.append((websocket, e))
        await websocket.close(code=4000)

    async def endpoint(websocket):
        if accept:
            await websocket.accept()
        raise exc

    class Endpoint(WebSocketEndpoint):
        on_connect = staticmethod(endpoint)

    async def asgi(scope, receive, send):
        await endpoint(WebSocket(scope, receive, send))

    cls = {"ws": WebSocketException, "base": Base, "sub": Sub}[kind]
    route = S.choice("route", [lambda: WebSocketRoute("/p", endpoint), lambda: WebSocketRoute("/p", Endpoint), lambda: WebSocketRoute("/p", asgi_class(asgi)), lambda: Mount("/p", app=asgi)])()
    app = Starlette(routes=[route], exception_handlers={cls: handler} if on else {})
    ch, error = attempt(app, ws_scope("/p/" if isinstance(route, Mount) else "/p"), [{"type": "websocket.connect"}])
    sent = ch.sent[1:] if accept else ch.sent
    if on:
        S.check(error is None and len(calls) == 1 and calls[0][1] is exc and isinstance(calls[0][0], WebSocket), "the handler")
        S.check(len(sent) == 1 and sent[0]["type"] == "websocket.close" and sent[0]["code"] == 4000, "the handler's messages")
        S.cover("handled")
    elif kind == "base":
        S.check(error is exc and sent == [], "propagates")
        S.cover("propagated")
    else:
        S.check(error is None and len(sent) == 1 and sent[0]["type"] == "websocket.close", "closed")
        S.check(S.And(S.eq(sent[0]["code"], code), S.eq(sent[0].get("reason") or "", reason)), "code and reason")
        S.cover("closed")


PHRASES = {200: "OK", 400: "Bad Request", 401: "Unauthorized", 403: "Forbidden", 404: "Not Found", 418: "I'm a Teapot", 422: "Unprocessable Entity", 429: "Too Many Requests", 500: "Internal Server Error", 503: "Service Unavailable"}


def h_answer(S):
    """Without a handler an HTTP error is answered with its own status, detail and headers."""
    plain = S.flag("phrase")
    if plain:
        status = S.choice("status", sorted(PHRASES))
        detail = None
        text = PHRASES[status]
    else:
        status = S.int("code", 200, 599)
        detail = text = S.str("detail", 0, S.q(2, 3)) + S.choice("rest", ["", "d" * 3000])
    name = S.bytes("name", 1, 1, ranges=[(97, 122)])
    value = S.str("value", 0, 1, ranges=[(32, 126), (160, 255)])
    form = S.choice("headers", ["none", "empty", "one", "content-type", "positional"])
    headers = {"none": None, "empty": {}, "one": {"x-" + name.decode(): value}, "content-type": {"Content-Type": "a/b", "x-q": value}, "positional": {"Allow": value}}[form]
    before = None if headers is None else dict(headers)
    sub = S.flag("subclass")

    class Sub(HTTPException):
        pass

    cls = Sub if sub else HTTPException
    exc = cls(status, detail, headers) if form == "positional" else cls(status_code=status, detail=detail, headers=headers)
    S.check(S.And(S.eq(exc.status_code, status), S.eq(exc.detail, text)), "attributes")
    where = S.choice("where", ["async", "sync", "mounted", "class", "middleware"])

    async def endpoint(request):
        raise exc

    def sync(request):
        raise exc

    class Endpoint(HTTPEndpoint):
        async def get(self, request):
            raise exc

    async def asgi(scope, receive, send):
        raise exc

    if where == "mounted":
        routes = [Mount("/p", app=Starlette(routes=[Route("/", endpoint)]))]
    elif where == "middleware":
        routes = [Mount("/p", app=asgi)]
    else:
        routes = [Route("/p/", {"async": endpoint, "sync": sync, "class": Endpoint}[where])]
    ch, error = attempt(Starlette(routes=routes), http_scope("/p/"))
    S.check(error is None and len(ch.sent) == 2, "answered")
    S.check(S.eq(ch.status, status), "its status")
    blank = S.Or(status == 204, status == 304)
    body = text.encode("utf-8")
    if blank:
        S.check(ch.body == b"", "no body")
        S.check(ch.header(b"content-length") == [], "no length")
        S.cover("blank")
    else:
        S.check(S.eq(ch.body, body), "its detail")
        S.check(ch.header(b"content-length") == [str(len(body)).encode()], "length")
        want = [b"a/b"] if form == "content-type" else [b"text/plain; charset=utf-8"]
        S.check(ch.header(b"content-type") == want, "content type")
        S.cover("phrase" if plain else "detail")
    own = [] if not before else [(k.lower().encode("latin-1"), v.encode("latin-1")) for k, v in before.items()]
    rest = [h for h in ch.headers if h[0] not in (b"content-length", b"content-type")]
    S.check(S.eq(rest, [h for h in own if h[0] != b"content-type"]), "its headers")
    S.check(S.eq(exc.headers, before), "the exception is not changed")


def h_text(S):
    """What is shown of an exception names its status and detail."""
    status = S.choice("status", [404, 200, 599])
    detail = S.str("detail", 0, 3, ranges=[(32, 38), (40, 91), (93, 126)])
    kind = S.choice("kind", ["http", "websocket", "no reason"])
    if kind == "http":
        e = HTTPException(status, detail)
        S.check(S.eq(repr(e), "HTTPException(status_code=" + str(status) + ", detail='" + detail + "')"), "repr")
    elif kind == "websocket":
        e = WebSocketException(status, detail)
        S.check(S.eq(repr(e), "WebSocketException(code=" + str(status) + ", reason='" + detail + "')"), "repr")
    else:
        e = WebSocketException(status, S.choice("reason", [None, ""]))
        detail = ""
        S.check(e.reason == "", "reason")
    S.check(S.eq(str(e), str(status) + ": " + detail), "text")
    S.cover(kind)


def h_none(S):
    """Without an exception nothing is touched; other connection types pass."""
    msgs = [{"type": "http.response.start", "status": S.int("status", 200, 599), "headers": [(b"a", S.bytes("v", 0, 2))]}, {"type": "http.response.body", "body": S.bytes("b", 0, 2)}]
    log = Log()

    async def app(scope, receive, send):
        for m in msgs:
            await send(m)

    ch, error = attempt(ExceptionMiddleware(app, handlers={Exception: log.handler("E", False)}), http_scope())
    S.check(error is None and log.calls == [] and S.eq(ch.sent, msgs), "messages")

    async def failing(scope, receive, send):
        raise Base()

    ch, error = attempt(ExceptionMiddleware(failing, handlers={Exception: log.handler("E", False)}), {"type": "lifespan"})
    S.check(isinstance(error, Base) and log.calls == [], "lifespan errors are not handled")
    S.cover("none")


def h_deep(S):
    """The most specific handler in a deep hierarchy, among many handlers."""
    depth = 12
    chain = [Exception]
    for i in range(depth):
        chain.append(type("E%d" % i, (chain[-1],), {}))
    mixed = type("Mixed", (type("A", (chain[3],), {}), type("B", (chain[6],), {})), {})
    log = Log()
    first, second = S.pick("first", 1, depth), S.pick("second", 1, depth)
    S.assume(first != second)
    handlers = {type("X%d" % i, (Exception,), {}): log.handler("X", True) for i in range(30)}
    handlers.update({400 + i: log.handler("X", True) for i in range(60)})
    handlers[chain[first]] = log.handler(str(first), S.flag("sync"))
    handlers[chain[second]] = log.handler(str(second), False)
    raised = S.choice("raised", ["chain", "mixed"])
    at = S.pick("at", 1, depth) if raised == "chain" else None
    exc = (chain[at] if raised == "chain" else mixed)("e")

    async def endpoint(request):
        raise exc

    app = Starlette(routes=[Route("/", endpoint)], exception_handlers=handlers)
    ch, error = attempt(app, http_scope())
    able = [k for k in (first, second) if isinstance(exc, chain[k])]
    S.check([t for t, r, e in log.calls] == ([str(max(able))] if able else []), "the most specific handler")
    S.check((error is None) == bool(able), "handled, or raised")
    S.cover("handled" if able else "raised")


class Status(Exception):
    """No HTTP exception, for all that it has a status."""

    status_code = 404
    detail = "d"
    headers = None


def h_nested(S):
    """Applications within applications use their own handlers."""
    log = Log()
    keys = [404, Base, HTTPException]
    outer = {k: log.handler("outer %s" % i, S.flag("sync")) for i, k in enumerate(keys) if S.flag("outer%d" % i)}
    inner = {k: log.handler("inner %s" % i, False) for i, k in enumerate(keys) if S.flag("inner%d" % i)}
    which = S.choice("raised", ["404", "http", "base"])
    exc = {"404": HTTPException(404, "d"), "http": HTTPException(418, "d"), "base": Leaf("l")}[which]

    async def endpoint(request):
        raise exc

    levels = S.pick("levels", 0, 2)
    app = Starlette(routes=[Route("/x", endpoint)], exception_handlers=inner)
    path = "/x"
    for i in range(levels):
        app = Starlette(routes=[Mount("/in", app), Route("/x", endpoint)], exception_handlers=outer)
        path = "/in" + path
    for p, mine, tag in [(path, inner, "inner"), ("/x", outer if levels else inner, "outer" if levels else "inner"), (path, inner, "inner")]:
        del log.calls[:]
        ch, error = attempt(app, http_scope(p))
        if which == "404":
            want = 0 if 404 in mine else 2 if HTTPException in mine else None
        elif which == "http":
            want = 2 if HTTPException in mine else None
        else:
            want = 1 if Base in mine else None
        if want is not None:
            S.check([t for t, r, e in log.calls] == ["%s %d" % (tag, want)] and error is None and ch.status == 299, "the innermost application's handler")
            S.cover("handled")
        elif which == "base":
            S.check(log.calls == [] and ch.status == 500 and error is not None and len(ch.sent) == 2, "the innermost application's 500")
            S.cover("raised")
        else:
            S.check(log.calls == [] and ch.status == exc.status_code and ch.body == b"d" and error is None, "the innermost application's default")
            S.cover("default")


def h_registered(S):
    """A handler registered again replaces the earlier one; a status of another exception means nothing."""
    log = Log()
    key = S.choice("key", [404, Base, HTTPException])
    how = S.choice("how", ["middleware", "application", "decorator"])
    handlers = [log.handler(str(i), S.flag("sync%d" % i)) for i in range(S.pick("n", 1, 3))]
    exc = S.choice("exc", [HTTPException(404), Leaf("l"), Status("s")])

    async def endpoint(scope, receive, send):
        raise exc

    if how == "middleware":
        app = ExceptionMiddleware(endpoint)
    else:
        app = Starlette(routes=[Mount("/", endpoint)])
    for h in handlers:
        if how == "decorator":
            app.exception_handler(key)(h)
        else:
            app.add_exception_handler(key, h)
    ch, error = attempt(app, http_scope())
    if isinstance(exc, HTTPException) and key != Base or key == Base and isinstance(exc, Base):
        S.check(error is None and [t for t, r, e in log.calls] == [str(len(handlers) - 1)], "the handler registered last")
        S.cover("handled")
    else:
        S.check(log.calls == [], "no handler is registered for it")
        S.check((error is None) == isinstance(exc, HTTPException), "default or raised")
        S.cover("other")


ASSUMPTIONS = ["handlers return a response and do not raise", "functions sent to worker threads run in place (native replay uses real threads)"]
HARNESSES = [
    dict(name="h_lookup", covers=["handled", "default", "propagated", "started"], bounds="8 raised classes (multiple inheritance, HTTP subclasses) x every subset of handlers for their base classes and codes 404 and 500 x every status 200..599 x before, after start, after part of the body"),
    dict(name="h_routes", covers=["handled", "default", "propagated"], bounds="sync, async, mounted and raw ASGI endpoints x 8 classes x every subset of 4 classes and a code"),
    dict(name="h_inner", covers=["two requests", "handled", "default", "propagated"], bounds="two requests in a row, 3 x 3 exceptions"),
    dict(name="h_websocket", covers=["handled", "propagated", "closed"], bounds="function, class, ASGI object and mounted endpoints, 3 classes, handler or not, before and after accept, every code 1000..4999 and reason of <= 2 printable characters, alone or before 121 more"),
    dict(name="h_answer", covers=["blank", "phrase", "detail"], bounds="every status 200..599 and every detail of <= 2 (thorough 3) characters, alone or before 3000 more, or 10 statuses without a detail; 5 forms of headers with every value of one character; 5 places to raise it"),
    dict(name="h_text", covers=["http", "websocket", "no reason"], bounds="every detail of <= 3 printable ASCII characters but quotes and backslashes"),
    dict(name="h_none", covers=["none"], bounds="every status, header value and body of <= 2 bytes"),
    dict(name="h_deep", covers=["handled", "raised"], bounds="two handlers anywhere in a hierarchy of 12 classes, one raised anywhere in it or a class of two bases; 90 other handlers"),
    dict(name="h_nested", covers=["handled", "raised", "default"], bounds="every subset of handlers for 404, a class and HTTPException in each of 1-3 applications within each other; 3 exceptions; three requests"),
    dict(name="h_registered", covers=["handled", "other"], bounds="1-3 handlers registered in 3 ways for 3 keys; 3 exceptions, one of another class with a status"),
]
