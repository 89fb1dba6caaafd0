"""C40: applications stack middleware in declared order inside error handling."""
from hlib import Channel, drive, http_scope, ws_scope

from starlette.applications import Starlette
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.responses import PlainTextResponse
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute


class Boom(Exception):
    pass


class SubBoom(Boom):
    pass


class Trace:
    """Records its passage, its arguments, and can fail before or after the application."""

    def __init__(self, app, name, *, log, fail=None, exc=None):
        self.app = app
        self.name = name
        self.log = log
        self.fail = fail
        self.exc = exc

    async def __call__(self, scope, receive, send):
        self.log.append("+" + self.name)
        if self.fail == "before":
            raise self.exc
        try:
            await self.app(scope, receive, send)
        except Exception:
            self.log.append("!" + self.name)
            raise
        self.log.append("-" + self.name)
        if self.fail == "after":
            raise self.exc


def attempt(app, scope, messages=None):
    ch = Channel(messages)
    try:
        drive(app(scope, ch.receive, ch.send))
    except Exception as e:
        return ch, e
    return ch, None


def connection(S, types=("http", "websocket", "lifespan")):
    typ = S.choice("type", types)
    if typ == "http":
        return typ, http_scope("/"), None
    if typ == "websocket":
        return typ, ws_scope("/"), [{"type": "websocket.connect"}]
    return typ, {"type": "lifespan"}, [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]


def plus(ns):
    return ["+" + n for n in ns]


def minus(ns, sign="-"):
    return [sign + n for n in reversed(ns)]


def build(S, log, exc=None, fail=None, at=None, **kw):
    """An application with middlewares given to the constructor and added later."""
    given = ["g%d" % i for i in range(S.pick("given", 0, S.q(2, 3)))]
    added = ["a%d" % i for i in range(S.pick("added", 0, S.q(2, 3)))]
    order = list(reversed(added)) + given

    def mw(n):
        if order.index(n) == at:
            return Middleware(Trace, n, log=log, fail=fail, exc=exc)
        return Middleware(Trace, n, log=log)

    listed = [mw(n) for n in given]
    app = Starlette(middleware=listed if given or S.flag("empty list") else None, **kw)
    listed.append(Middleware(Trace, "later", log=log))
    for n in added:
        m = mw(n)
        app.add_middleware(m.cls, *m.args, **m.kwargs)
    return app, order


def endpoints(log, exc=None, started=False):
    async def endpoint(request):
        log.append("endpoint")
        if exc is not None:
            raise exc
        return PlainTextResponse("ok")

    async def socket(websocket):
        log.append("endpoint")
        if exc is not None:
            raise exc
        await websocket.close()

    return [Route("/", endpoint), WebSocketRoute("/", socket)]


def h_order(S):
    """Everything passes the middlewares in order, twice."""
    log = []
    typ, scope, messages = connection(S)
    app, order = build(S, log, routes=endpoints(log), debug=S.flag("debug"))
    for i in range(2):
        del log[:]
        ch, error = attempt(app, dict(scope), messages)
        S.check(error is None, "no error")
        S.check([x for x in log if x != "endpoint"] == plus(order) + minus(order), "declared order")
        if typ != "lifespan":
            S.check(log.index("endpoint") == len(order) and log.count("endpoint") == 1, "the endpoint is innermost")
    S.cover(typ)


KEYS = {"500": 500, "Exception": Exception, "418": 418, "Boom": Boom, "http": HTTPException}


def h_handlers(S):
    """Where each handler acts."""
    log = []
    status = S.choice("status", [418, 404])
    raised = S.choice("raised", ["http", "boom", "sub"])
    exc = {"http": HTTPException(status_code=status), "boom": Boom("b"), "sub": SubBoom("b")}[raised]
    handled = []
    table = {}

    def handler(key):
        async def h(request, e):
            handled.append((key, e))
            return PlainTextResponse(key, status_code=299)

        def s(request, e):
            handled.append((key, e))
            return PlainTextResponse(key, status_code=299)

        return s if key == "418" else h

    outer = S.choice("outer", [None, "500", "Exception"])
    chosen = ([outer] if outer else []) + [k for k in ["418", "Boom", "http"] if S.flag(k)]
    if S.flag("reverse"):
        chosen.reverse()
    late = S.flag("late")
    for k in chosen:
        if not late:
            table[KEYS[k]] = handler(k)
    app, order = build(S, log, routes=endpoints(log, exc), exception_handlers=table)
    for k in chosen:
        if late:
            app.add_exception_handler(KEYS[k], handler(k))
    ch, error = attempt(app, http_scope("/"))
    if raised == "http":
        inner = "418" if status == 418 and "418" in chosen else "http" if "http" in chosen else "default"
    else:
        inner = "Boom" if "Boom" in chosen else None
    S.check(log[: len(order) + 1] == plus(order) + ["endpoint"], "the way in")
    rest = log[len(order) + 1 :]
    if inner is not None:
        S.check(error is None and rest == minus(order), "handled inside of all middleware")
        S.check(handled == ([] if inner == "default" else [(inner, exc)]), "by one handler")
        S.check(ch.status == (status if inner == "default" else 299), "its response")
        S.cover("inner")
    else:
        S.check(error is exc and rest == minus(order, "!"), "seen by all middleware and re-raised")
        S.check(handled == ([] if outer is None else [(outer, exc)]), "by the outermost handler")
        S.check(ch.status == (500 if outer is None else 299), "its response")
        S.cover("outer")


def h_failing_middleware(S):
    """Errors in middleware are outside of exception handling and inside of error handling."""
    log = []
    kind = S.choice("exc", ["boom", "http"])
    exc = Boom("b") if kind == "boom" else HTTPException(status_code=418)
    fail = S.choice("fail", ["before", "after"])
    at = S.pick("at", 0, 2)
    handled = []

    async def inner(request, e):
        handled.append("inner")
        return PlainTextResponse("inner", status_code=299)

    async def outer(request, e):
        handled.append("outer")
        return PlainTextResponse("outer", status_code=298)

    handlers = {Boom: inner, 418: inner}
    if S.flag("outer"):
        handlers[Exception] = outer
    app, order = build(S, log, exc=exc, fail=fail, at=at, routes=endpoints(log), exception_handlers=handlers)
    S.assume(at < len(order))
    ch, error = attempt(app, http_scope("/"))
    S.check(error is exc, "re-raised")
    expect = plus(order[: at + 1]) + minus(order[:at], "!")
    if fail == "after":
        expect = plus(order) + ["endpoint"] + minus(order[at:]) + minus(order[:at], "!")
        S.check(ch.status == 200 and ch.body == b"ok" and len(ch.sent) == 2, "the response already sent")
        S.check("inner" not in handled, "not handled inside")
    else:
        S.check(handled == (["outer"] if Exception in handlers else []), "handled outside only")
        S.check(ch.status == (298 if Exception in handlers else 500), "an error response")
    S.check(log == expect, "the outer middlewares see the error")
    S.cover(fail)


def h_websocket_errors(S):
    """Websocket errors pass the same stack."""
    log = []
    exc = S.choice("exc", [Boom("b"), HTTPException(status_code=418)])
    handled = []

    async def inner(websocket, e):
        handled.append(e)

    app, order = build(S, log, routes=endpoints(log, exc), exception_handlers={Boom: inner} if S.flag("handler") else {})
    ch, error = attempt(app, ws_scope("/"), [{"type": "websocket.connect"}])
    if isinstance(exc, HTTPException) or app.exception_handlers:
        S.check(error is None and handled == ([exc] if isinstance(exc, Boom) else []) and log == plus(order) + ["endpoint"] + minus(order), "handled inside")
        S.cover("handled")
    else:
        S.check(error is exc and handled == [] and log == plus(order) + ["endpoint"] + minus(order, "!"), "propagates")
        S.cover("raised")


def h_added_late(S):
    """Middleware cannot be added once the application has started."""
    log = []
    typ, scope, messages = connection(S)
    broken = S.flag("broken")
    app, order = build(S, log, routes=endpoints(log, Boom("b") if broken else None))
    attempt(app, dict(scope), messages)
    raised = False
    try:
        app.add_middleware(Trace, "late", log=log)
    except RuntimeError:
        raised = True
    S.check(raised, "refused")
    del log[:]
    attempt(app, dict(scope), messages)
    S.check("+late" not in log and log[: len(order)] == plus(order), "unchanged")
    S.cover("late")


def tracers(S, label, log, most):
    names = [label + str(i) for i in range(S.pick(label, 0, most))]
    return names, [Middleware(Trace, n, log=log) for n in names]


def h_levels(S):
    """Middleware of routes, mounts and routers wraps only what is below."""
    log = []
    form = S.choice("form", ["mount", "mounted-router", "host", "app"])
    a_names, a = tracers(S, "app", log, 1)
    m_names, m = tracers(S, "mount", log, S.q(2, 3))
    r_names, r = tracers(S, "route", log, 2)
    s_names, s = tracers(S, "sibling", log, 1)
    websocket = S.flag("websocket")

    async def endpoint(request):
        log.append("endpoint")
        return PlainTextResponse("ok")

    async def socket(ws):
        log.append("endpoint")
        await ws.close()

    inner = [
        Route("/a", endpoint, middleware=r or None),
        WebSocketRoute("/a", socket, middleware=r),
        Route("/b", endpoint, middleware=s),
        WebSocketRoute("/b", socket, middleware=s or None),
    ]
    scope_path = "/m/"
    headers = []
    if form == "mount":
        routes = [Mount("/m", routes=inner, middleware=m or None)]
    elif form == "mounted-router":
        routes = [Mount("/m", app=Router(inner, middleware=m))]
    elif form == "host":
        routes = [Host("h.org", app=Router(inner, middleware=m))]
        scope_path = "/"
        headers = [(b"host", b"h.org")]
    else:
        routes = [Mount("/m", app=Starlette(routes=inner, middleware=m))]
    routes.append(Route("/out", endpoint))
    routes.append(WebSocketRoute("/out", socket))
    app = Starlette(routes=routes, middleware=a)
    target = S.choice("target", ["a", "b", "missing", "out"])
    path = "/out" if target == "out" else scope_path + target
    if target == "out":
        headers = []
    if websocket:
        ch, error = attempt(app, ws_scope(path, headers=headers), [{"type": "websocket.connect"}])
    else:
        ch, error = attempt(app, http_scope(path, headers=headers))
    S.check(error is None, "no error")
    chain = {"a": a_names + m_names + r_names, "b": a_names + m_names + s_names, "missing": a_names + m_names, "out": a_names}[target]
    middle = [] if target == "missing" else ["endpoint"]
    back = minus(chain)
    if target == "missing" and not websocket and form != "app":
        back = minus(m_names, "!") + minus(a_names)  # the 404 of a plain router is an HTTPException
    S.check(log == plus(chain) + middle + back, "only the middlewares of the enclosing levels, in order")
    if not websocket:
        S.check(ch.status == (404 if target == "missing" else 200), "the response")
    S.cover(target)


def h_route_handlers(S):
    """Exception handlers act inside of route, mount and application middleware."""
    log = []
    exc = S.choice("exc", [Boom("b"), SubBoom("b"), HTTPException(status_code=418)])
    r_names, r = tracers(S, "route", log, 2)
    m_names, m = tracers(S, "mount", log, 1)
    a_names, a = tracers(S, "app", log, 1)

    async def inner(request, e):
        return PlainTextResponse("inner", status_code=299)

    async def endpoint(request):
        raise exc

    handler = S.flag("handler")
    app = Starlette(routes=[Mount("/m", routes=[Route("/a", endpoint, middleware=r)], middleware=m)], middleware=a, exception_handlers={Boom: inner} if handler else {})
    chain = a_names + m_names + r_names
    ch, error = attempt(app, http_scope("/m/a"))
    if isinstance(exc, HTTPException) or handler:
        S.check(error is None and log == plus(chain) + minus(chain), "handled inside")
        S.check(ch.status == (299 if isinstance(exc, Boom) else 418), "the response")
        S.cover("handled")
    else:
        S.check(error is exc and log == plus(chain) + minus(chain, "!"), "propagates")
        S.check(ch.status == 500, "the response")
        S.cover("raised")


def h_repeated(S):
    """The same middleware may be listed any number of times, with or without arguments, at every level."""
    log = []

    def plain(name):
        class Plain:
            def __init__(self, app, *args, **kwargs):
                self.app = app
                self.name = name + "".join(args) + "".join(kwargs.values())

            async def __call__(self, scope, receive, send):
                log.append("+" + self.name)
                await self.app(scope, receive, send)
                log.append("-" + self.name)

        return Plain

    p, q = plain("p"), plain("q")
    pool = {"p": Middleware(p), "q": Middleware(q), "px": Middleware(p, "x"), "py": Middleware(p, key="y"), "pxy": Middleware(p, "x", key="y")}
    names = [S.choice("n%d" % i, sorted(pool)) for i in range(S.pick("count", 1, S.q(3, 4)))]
    level = S.choice("level", ["app", "router", "mount", "route", "websocket", "added"])
    many = [pool[n] for n in names]

    async def endpoint(request):
        log.append("endpoint")
        return PlainTextResponse("ok")

    async def socket(ws):
        log.append("endpoint")
        await ws.close()

    routes = [Route("/a", endpoint, middleware=many if level == "route" else None), WebSocketRoute("/a", socket, middleware=many if level == "websocket" else None)]
    path = "/a"
    if level == "mount":
        routes = [Mount("/m", routes=routes, middleware=many)]
        path = "/m/a"
    elif level == "router":
        routes = [Mount("/m", app=Router(routes, middleware=many))]
        path = "/m/a"
    app = Starlette(routes=routes, middleware=many if level == "app" else None)
    if level == "added":
        for m in reversed(many):
            app.add_middleware(m.cls, *m.args, **m.kwargs)
    if level == "websocket":
        ch, error = attempt(app, ws_scope(path), [{"type": "websocket.connect"}])
    else:
        ch, error = attempt(app, http_scope(path))
    S.check(error is None, "no error")
    S.check(log == plus(names) + ["endpoint"] + minus(names), "every listed middleware, in declared order")
    S.cover("repeated" if len(set(names)) < len(names) else "distinct")


ASSUMPTIONS = [
    "at most one of 500 and Exception has a handler",
    "middlewares are pure ASGI classes (function middleware: C34)",
    "configurations are finite choices, decided by exhaustive forking over the stated counts",
]
HARNESSES = [
    dict(name="h_order", covers=["http", "websocket", "lifespan"], bounds="<= 2+2 (thorough 3+3) middlewares given and added, 3 connection types, two connections"),
    dict(name="h_handlers", covers=["inner", "outer"], bounds="every subset of handlers for 418, HTTPException and a class, with none/500/Exception, in either order, given or added; 4 exceptions; <= 2+2 (3+3) middlewares"),
    dict(name="h_failing_middleware", covers=["before", "after"], bounds="each of the first 3 middlewares failing before or after, 2 exceptions"),
    dict(name="h_websocket_errors", covers=["handled", "raised"], bounds="2 exceptions, with and without handler"),
    dict(name="h_added_late", covers=["late"], bounds="after a connection of each type, failing or not"),
    dict(name="h_levels", covers=["a", "b", "missing", "out"], bounds="<= 1 application, 2 (thorough 3) mount/router, 2 route middlewares; 4 ways of nesting; 4 targets; HTTP and websocket"),
    dict(name="h_repeated", covers=["repeated", "distinct"], bounds="every sequence of 1..3 (thorough 4) of 5 middlewares of two classes; 6 levels"),
    dict(name="h_route_handlers", covers=["handled", "raised"], bounds="<= 1+1+2 middlewares, 3 exceptions"),
]
