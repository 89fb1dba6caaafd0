"""C52: what is registered by method or decorator acts as if given to the constructor."""
import warnings

from hlib import Channel, drive, http_scope, ws_scope

from starlette.applications import Starlette
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.requests import Request
from starlette.responses import PlainTextResponse, Response
from starlette.routing import Host, Mount, NoMatchFound, Route, Router, WebSocketRoute
from starlette.schemas import BaseSchemaGenerator

warnings.simplefilter("ignore")


class Boom(Exception):
    pass


class SubBoom(Boom):
    pass


def endpoint(label, log):
    async def endpoint(request):
        log.append((label, dict(request.path_params), request.scope["root_path"]))
        return PlainTextResponse(label)

    return endpoint


def ws_endpoint(label, log):
    async def ws_endpoint(websocket):
        log.append((label, dict(websocket.path_params), websocket.scope["root_path"]))
        await websocket.accept()
        await websocket.close()

    return ws_endpoint


def asgi(label, log):
    async def app(scope, receive, send):
        log.append((label, dict(scope.get("path_params", {})), scope["root_path"]))
        if scope["type"] == "http":
            await PlainTextResponse(label)(scope, receive, send)
        else:
            await receive()
            await send({"type": "websocket.close", "code": 1000, "reason": ""})

    return app


PATHS = ["/", "/a", "/{x}", "/{n:int}"]
METHODS = [None, ["POST"], ["get", "PUT"]]
KINDS = ["route", "websocket", "mount", "host"]


def register(S, i, app, ref, log, names):
    """Register entry i on app by method or decorator, and append it to the list ref."""
    kind = S.choice("kind%d" % i, KINDS)
    label = "e%d" % i
    name = S.choice("name%d" % i, [None, "n"]) if names else None
    paths = ["/a", "/{x}"] if names else PATHS
    kw = {} if name is None else {"name": name}
    if kind == "route":
        path = S.choice("path%d" % i, paths)
        methods = S.choice("methods%d" % i, METHODS if not names and i == 0 else METHODS[:2])
        include = not names or S.flag("include%d" % i)
        if methods is not None:
            kw["methods"] = methods
        if not include:
            kw["include_in_schema"] = False
        f = endpoint(label, log)
        ref.append(Route(path, f, **kw))
        if S.flag("decorator%d" % i):
            S.check(app.route(path, **kw)(f) is f, "the decorator returns the function")
        else:
            S.check(app.add_route(path, f, **kw) is None, "add_route")
    elif kind == "websocket":
        path = S.choice("path%d" % i, paths)
        f = ws_endpoint(label, log)
        ref.append(WebSocketRoute(path, f, **kw))
        if S.flag("decorator%d" % i):
            S.check(app.websocket_route(path, **kw)(f) is f, "the decorator returns the function")
        else:
            app.add_websocket_route(path, f, **kw)
    elif kind == "mount":
        path = S.choice("mount%d" % i, ["", "/a", "/{x}"])
        f = asgi(label, log)
        ref.append(Mount(path, app=f, **kw))
        app.mount(path, f, **kw)
    else:
        host = S.choice("host%d" % i, ["h", "{h}.x"])
        f = asgi(label, log)
        ref.append(Host(host, app=f, **kw))
        app.host(host, f, **kw)
    S.cover(kind)


def serve(app, scope):
    ch = Channel([{"type": "websocket.connect"}] if scope["type"] == "websocket" else None)
    try:
        drive(app(scope, ch.receive, ch.send))
    except (Boom, RuntimeError) as e:
        return ch.sent, e
    return ch.sent, None


def same_messages(S, a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if set(x) != set(y):
            return False
        for k in x:
            if k == "headers":
                # the order of the methods in Allow is not determined
                hx = [(n, v if n != b"allow" else sorted(v.split(b", "))) for n, v in x[k]]
                hy = [(n, v if n != b"allow" else sorted(v.split(b", "))) for n, v in y[k]]
                if not S.eq(hx, hy):
                    return False
            elif not S.eq(x[k], y[k]):
                return False
    return True


def h_routes(S):
    """Registered entries serve, reverse and document like the constructor's."""
    log = []
    cls = S.choice("class", [Starlette, Router])
    app = cls()
    ref_routes = []
    n = S.pick("n", 1, 2)
    for i in range(n):
        register(S, i, app, ref_routes, log, False)
    ref = cls(routes=list(ref_routes))
    S.check(len(app.routes) == n, "one entry each")
    typ = S.choice("type", ["http", "websocket"])
    path = "/" + S.str("p", 0, 2 if n == 1 else S.q(1, 2), alphabet="a/1")
    hosts = [b"h", b"q.x", b"z"] if any(isinstance(r, Host) for r in ref_routes) else [b"h"]
    headers = [(b"host", S.choice("hosthdr", hosts))]
    if typ == "http":
        method = S.choice("method", ["GET", "POST"])
        scopes = [http_scope(path, method=method, headers=headers) for i in range(2)]
    else:
        scopes = [ws_scope(path, headers=headers) for i in range(2)]
    got, error = serve(app, scopes[0])
    got_log = list(log)
    del log[:]
    want, want_error = serve(ref, scopes[1])
    S.check((error is None) == (want_error is None), "errors")
    S.check(same_messages(S, got, want), "the same messages")
    S.check(S.eq(got_log, log), "the same endpoint is called, with the same parameters")
    S.cover("served" if log else "not served")


def h_names(S):
    """Names and schemas."""
    log = []
    cls = S.choice("class", [Starlette, Router])
    app = cls()
    ref_routes = []
    n = S.pick("n", 1, 2)
    for i in range(n):
        register(S, i, app, ref_routes, log, True)
    ref = cls(routes=list(ref_routes))
    for name, params in (("n", {}), ("n", {"x": "v"}), ("n", {"n": 5}), ("n", {"path": "/q"}), ("n", {"h": "s", "path": "/q"}), ("endpoint", {}), ("ws_endpoint", {"x": "v"})):
        out = []
        for a in (app, ref):
            try:
                out.append(str(a.url_path_for(name, **params)))
            except NoMatchFound:
                out.append(None)
        S.check(out[0] == out[1], "reversing")
        S.cover("reversed" if out[0] else "unknown")
    a, b = [[(e.path, e.http_method, e.func) for e in BaseSchemaGenerator().get_endpoints(x.routes)] for x in (app, ref)]
    S.check(len(a) == len(b) and all(x in b for x in a), "schema endpoints")


def handler(label):
    async def handle(request, exc):
        return PlainTextResponse(label, status_code=418)

    return handle


def h_handlers(S):
    """Exception handlers added by method or decorator."""
    keys = [404, 500, Boom, SubBoom, HTTPException, Exception]
    n = S.pick("n", 1, 2)
    app = Starlette()
    given = {}
    for i in range(n):
        key = S.choice("key%d" % i, keys)
        h = handler("h%d" % i)
        given[key] = h
        if S.flag("decorator%d" % i):
            S.check(app.exception_handler(key)(h) is h, "the decorator returns the function")
        else:
            app.add_exception_handler(key, h)
    ref = Starlette(exception_handlers=given)
    exc = S.choice("exc", [HTTPException(404), HTTPException(403), Boom("b"), SubBoom("s"), RuntimeError("r"), None])

    async def fails(request):
        if exc is not None:
            raise exc
        return PlainTextResponse("fine")

    out = []
    for a in (app, ref):
        a.add_route("/", fails)
        out.append(serve(a, http_scope("/")))
    S.check(out[0][1] is out[1][1], "the same error is raised")
    S.check(same_messages(S, out[0][0], out[1][0]), "the same answer")
    S.cover("handled" if out[0][0][0]["status"] == 418 else "other")


def h_events(S):
    """Startup and shutdown handlers added by method or decorator."""
    log = []
    cls = S.choice("class", [Starlette, Router])
    app = cls()
    want = {"startup": [], "shutdown": []}
    for i in range(S.pick("n", 1, S.q(3, 4))):
        event = S.choice("event%d" % i, ["startup", "shutdown"])

        def plain(i=i):
            log.append(i)

        async def waiting(i=i):
            log.append(i)

        f = S.choice("async%d" % i, [plain, waiting])
        if S.flag("decorator%d" % i):
            S.check(app.on_event(event)(f) is f, "the decorator returns the function")
        else:
            app.add_event_handler(event, f)
        want[event].append(i)
    messages = [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]
    at = {}

    async def receive():
        m = messages.pop(0)
        at[m["type"]] = len(log)
        return m

    sent = []

    async def send(m):
        sent.append(m["type"])

    drive(app({"type": "lifespan"}, receive, send))
    S.check(sent == ["lifespan.startup.complete", "lifespan.shutdown.complete"], "the messages")
    S.check(log[: at["lifespan.shutdown"]] == want["startup"], "startup handlers in order")
    S.check(log[at["lifespan.shutdown"] :] == want["shutdown"], "shutdown handlers in order")
    S.cover("both" if want["startup"] and want["shutdown"] else "one")


class Outer:
    def __init__(self, app, log, label="x"):
        self.app = app
        self.log = log
        self.label = label

    async def __call__(self, scope, receive, send):
        self.log.append(self.label)
        await self.app(scope, receive, send)


def h_middleware(S):
    """Middleware added by method or decorator goes outside what is there."""
    log = []

    def dispatch(label):
        async def dispatch(request, call_next):
            log.append(label)
            response = await call_next(request)
            response.headers["x-" + label] = "1"
            return response

        return dispatch

    async def index(request):
        log.append("endpoint")
        return PlainTextResponse("ok")

    given = [Middleware(Outer, log, label="g")] if S.flag("given") else []
    app = Starlette(routes=[Route("/", index)], middleware=given)
    want = ["g"] if given else []
    headers = []
    for i in range(S.pick("n", 1, S.q(3, 4))):
        label = "m%d" % i
        how = S.choice("how%d" % i, ["decorator", "class", "dispatch"])
        if how == "decorator":
            d = dispatch(label)
            S.check(app.middleware("http")(d) is d, "the decorator returns the function")
            headers.append(label)
        elif how == "class":
            app.add_middleware(Outer, log, label=label)
        else:
            app.add_middleware(BaseHTTPMiddleware, dispatch=dispatch(label))
            headers.append(label)
        want.insert(0, label)
    ch = Channel()
    from hlib import run_closed

    async def go():
        await app(http_scope("/"), ch.receive, ch.send)

    run_closed(go())
    S.check(log == want + ["endpoint"], "the last added is outermost")
    S.check(ch.status == 200 and ch.body == b"ok", "served")
    S.check(sorted(k.decode() for k, v in ch.headers if k.startswith(b"x-")) == sorted("x-" + h for h in headers), "each has its say")
    refused = False
    try:
        app.add_middleware(Outer, log)
    except RuntimeError:
        refused = True
    S.check(refused, "too late")
    S.cover("given" if given else "added")


def h_shared(S):
    """What is registered on one application reaches neither what it was made from nor its twin."""
    log = []

    def make(label):
        async def note():
            log.append(label)

        return note

    async def fails(request):
        raise Boom("b")

    cls = S.choice("class", [Starlette, Router])
    seq = S.choice("sequence", [list, tuple])
    routes = [Route("/a", endpoint("given", log)), Route("/fails", fails)][: S.choice("routes", [0, 2])]
    kw = {"routes": seq(routes), "on_startup": seq([make("up")] * S.pick("up", 0, 1)), "on_shutdown": seq([make("down")] * S.pick("down", 0, 1))}
    if cls is Starlette:
        kw["middleware"] = seq([Middleware(Outer, log, label="g")] * S.pick("middleware", 0, 1))
        kw["exception_handlers"] = {KeyError: handler("key")} if S.flag("handlers") else {}
    before = {k: dict(v) if isinstance(v, dict) else list(v) for k, v in kw.items()}
    first, twin = cls(**kw), cls(**kw)
    for i in range(S.q(2, 3)):
        what = S.choice("what%d" % i, ["route", "websocket", "mount", "host", "startup", "shutdown"] + (["handler", "middleware"] if cls is Starlette else []))
        if what == "route":
            first.add_route("/b", endpoint("added", log))
        elif what == "websocket":
            first.add_websocket_route("/b", ws_endpoint("added", log))
        elif what == "mount":
            first.mount("/b", asgi("added", log))
        elif what == "host":
            first.host("h", asgi("added", log))
        elif what in ("startup", "shutdown"):
            first.add_event_handler(what, make("added"))
        elif what == "handler":
            first.add_exception_handler(Boom, handler("added"))
        else:
            first.add_middleware(Outer, log, label="added")
        S.cover(what)
    for k, v in before.items():
        S.check((dict(kw[k]) if isinstance(v, dict) else list(kw[k])) == v, "what was given as " + k)
    ref = cls(**{k: dict(v) if isinstance(v, dict) else list(v) for k, v in before.items()})
    path = S.choice("path", ["/a", "/b", "/fails", "lifespan"])
    out = []
    for app in (twin, ref):
        del log[:]
        if path == "lifespan":
            messages = [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]
            sent = []

            async def receive():
                return messages.pop(0)

            async def send(m):
                sent.append(m)

            drive(app({"type": "lifespan"}, receive, send))
            out.append((sent, list(log)))
        else:
            got, error = serve(app, http_scope(path, headers=[(b"host", b"h")]))
            out.append((got, type(error), list(log)))
    S.check(same_messages(S, out[0][0], out[1][0]) and out[0][1:] == out[1][1:], "the twin")


def h_equal(S):
    """Routes compare equal exactly when they are the same kind, at the same path, for the same target."""
    log = []
    fs = [endpoint("a", log), endpoint("b", log)]
    apps = [asgi("a", log), asgi("b", log)]

    def make(j):
        kind = S.choice("kind%d" % j, KINDS + ["router"])
        path = S.choice("path%d" % j, ["/", "/a"])
        which = S.pick("which%d" % j, 0, 1)
        name = S.choice("name%d" % j, [None, "n"])
        if kind == "route":
            methods = S.choice("methods%d" % j, [None, ["GET"], ["HEAD", "get"], ["POST"], ["POST", "PUT"], ["PUT", "POST"]])
            norm = {m.upper() for m in methods or ["GET"]}
            if "GET" in norm:
                norm.add("HEAD")
            return Route(path, fs[which], methods=methods, name=name), (kind, path, which, norm)
        if kind == "websocket":
            return WebSocketRoute(path, fs[which], name=name), (kind, path, which)
        if kind == "mount":
            tail = S.choice("tail%d" % j, ["", "/"])
            return Mount(path.rstrip("/") + tail, apps[which], name=name), (kind, path, which)
        if kind == "host":
            return Host(path.replace("/", "h"), apps[which], name=name), (kind, path, which)
        return Router([Route(path, fs[which], name=name)]), (kind, path, which)

    a, ka = make(0)
    b, kb = make(1)
    S.check((a == b) == (ka == kb), "equality")
    S.check((a != b) == (ka != kb), "inequality")
    S.check((a == 5) is False, "other objects")
    S.cover("equal" if ka == kb else "different")


ASSUMPTIONS = ["the constructor's behaviour is that of C01-C06, C36, C40, C41 and C47", "middleware and handlers of the harness do not fail"]
HARNESSES = [
    dict(name="h_routes", covers=KINDS + ["served", "not served"], bounds="1 or 2 entries of 4 kinds (4 paths, 3 method lists; method or decorator) on Starlette and Router; every path of <= 3 characters (2 with two entries; thorough 3) over {a, /, 1}, 3 hosts, 2 methods, HTTP and websocket"),
    dict(name="h_names", covers=["reversed", "unknown"], bounds="1 or 2 entries (2 paths, 2 method lists, names, schema flag); 7 reversals and the schema endpoints"),
    dict(name="h_handlers", covers=["handled", "other"], bounds="1 or 2 handlers for 6 classes or codes x 6 outcomes of the endpoint"),
    dict(name="h_events", covers=["both", "one"], bounds="<= 3 (4) handlers of 2 kinds for 2 events, by method or decorator; Starlette and Router"),
    dict(name="h_middleware", covers=["given", "added"], bounds="<= 3 (4) middleware added in 3 ways, with and without one given"),
    dict(name="h_shared", covers=["route", "websocket", "mount", "host", "startup", "shutdown", "handler", "middleware"], bounds="2 (3) registrations of 8 kinds on one of two applications or routers made from the same lists, tuples and mapping, each empty or not; 3 paths and the lifespan"),
    dict(name="h_equal", covers=["equal", "different"], bounds="every pair of 5 kinds x 2 paths x 2 targets x 2 names x 6 method lists"),
]
