"""C04: routers dispatch to the first match, answer 405 with Allow, else 404."""
from hlib import call, denotes, http_scope, ws_scope

from starlette.applications import Starlette
from starlette.responses import Response
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute

METHODS = ["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "PURGE"]


class Table:
    """Route table entries: (tag, kind, template, parts, methods given, methods served)."""

    def __init__(self):
        self.calls = []
        self.endpoints = {}

    def endpoint(self, tag):
        async def ep(request):
            self.calls.append((tag, request.scope["type"], dict(request.scope["path_params"]), request.scope["endpoint"] is ep))
            return Response(b"ok")

        self.endpoints[tag] = ep
        return ep

    def ws_endpoint(self, tag):
        async def ep(websocket):
            self.calls.append((tag, websocket.scope["type"], dict(websocket.scope["path_params"]), websocket.scope["endpoint"] is ep))

        return ep

    def asgi(self, tag):
        calls = self.calls

        class App:
            async def __call__(self, scope, receive, send):
                calls.append((tag, scope["type"], dict(scope["path_params"]), scope["endpoint"] is self))
                if scope["type"] == "http":
                    await Response(b"ok")(scope, receive, send)

        return App()

    def build(self, specs):
        out = []
        for tag, kind, template, parts, methods in specs:
            if kind == "http":
                out.append(Route(template, self.endpoint(tag), methods=methods))
            elif kind == "class":
                out.append(Route(template, self.asgi(tag), methods=methods))
            elif kind == "ws":
                out.append(WebSocketRoute(template, self.ws_endpoint(tag)))
            else:
                out.append(Mount(template, app=self.asgi(tag)))
        return out


def served(kind, methods):
    """Methods a route answers, None for all."""
    if methods is None:
        return {"GET", "HEAD"} if kind == "http" else None
    ms = {m.upper() for m in methods}
    if "GET" in ms:
        ms.add("HEAD")
    return ms


def matches(S, kind, parts, path):
    if kind == "mount":
        parts = parts + ["/", ("path", "path")]
    r = denotes(S, parts, path, None)
    return bool(r)


POOL = {
    "a-get": ("a-get", "http", "/a", ["/a"], None),
    "a-post": ("a-post", "http", "/a", ["/a"], ["post"]),
    "a-multi": ("a-multi", "http", "/a", ["/a"], ["PUT", "get", "delete", "Options", "purge"]),
    "x-put": ("x-put", "http", "/{x}", ["/", ("x", "str")], ["PUT", "POST"]),
    "y-get": ("y-get", "http", "/{y}", ["/", ("y", "str")], ["GET"]),
    "int-del": ("int-del", "http", "/{n:int}", ["/", ("n", "int")], ["DELETE"]),
    "ws-x": ("ws-x", "ws", "/{w}", ["/", ("w", "str")], None),
    "ws-a": ("ws-a", "ws", "/a", ["/a"], None),
    "cls": ("cls", "class", "/a", ["/a"], None),
    "cls-get": ("cls-get", "class", "/{x}", ["/", ("x", "str")], ["GET"]),
    "mount": ("mount", "mount", "/a", ["/a"], None),
    "catch": ("catch", "mount", "", [], None),
    "p": ("p", "http", "/{p:path}", ["/", ("p", "path")], ["POST"]),
}
TABLES = [
    ["a-get", "a-post", "x-put"],
    ["a-post", "a-get"],
    ["x-put", "a-get", "y-get"],
    ["a-post", "x-put", "int-del", "y-get"],
    ["ws-x", "a-get", "ws-a"],
    ["y-get", "ws-a", "ws-x"],
    ["a-multi", "cls"],
    ["cls-get", "cls", "a-post"],
    ["a-post", "mount", "a-get"],
    ["mount", "a-get", "x-put"],
    ["a-get", "catch", "x-put"],
    ["p", "a-multi", "int-del"],
    ["cls"],
    ["a-multi", "x-put"],
    ["int-del", "a-multi", "p"],
    [],
]


def expected(S, specs, typ, path, method):
    partial = None
    for spec in specs:
        tag, kind, template, parts, methods = spec
        if typ == "http" and kind == "ws" or typ == "websocket" and kind not in ("ws", "mount"):
            continue
        if not matches(S, kind, parts, path):
            continue
        ms = served(kind, methods)
        if typ == "websocket" or kind == "mount" or ms is None or method in ms:
            return "call", spec, ms
        if partial is None:
            partial = spec, ms
    if partial is not None:
        return "405", partial[0], partial[1]
    return "none", None, None


def run_case(S, names, app_kind, typ, path, method):
    t = Table()
    specs = [POOL[n] for n in names]
    routes = t.build(specs)
    if app_kind == "app":
        app = Starlette(routes=routes)
        app.router.redirect_slashes = False
    elif app_kind == "added":
        app = Router(redirect_slashes=False)
        app.routes.extend(routes)
    else:
        app = Router(routes, redirect_slashes=False)
    if typ == "http":
        ch = call(app, http_scope(path=path, method=method, path_params={"outer": "1"}))
    else:
        ch = call(app, ws_scope(path=path, path_params={"outer": "1"}), messages=[{"type": "websocket.connect"}])
    S.observe("calls", [c[:3] for c in t.calls])
    S.observe("sent", [[m["type"], m.get("status")] for m in ch.sent])
    what, spec, ms = expected(S, specs, typ, path, method)
    S.cover(what)
    if what == "call":
        S.check(len(t.calls) == 1, "not exactly one handler ran")
        tag, styp, params, own = t.calls[0]
        S.check(tag == spec[0], "the wrong handler ran: %s instead of %s" % (tag, spec[0]))
        S.check(styp == typ and own, "endpoint or type in the handler's scope")
        names_ = sorted([p[0] for p in spec[3] if not isinstance(p, str)] + ["outer"])
        S.check(sorted(params.keys()) == names_, "handler scope carries other path parameters")
        for p in spec[3]:
            if not isinstance(p, str) and p[1] != "int":
                S.check(S.eq(params[p[0]], path[1:]), "wrong parameter value")
        if typ == "http":
            S.check(ch.status == 200, "status")
        return
    S.check(len(t.calls) == 0, "a handler ran though no route serves the request")
    if typ == "websocket":
        S.check(len(ch.sent) == 1 and ch.sent[0]["type"] == "websocket.close", "websocket not closed")
    elif what == "405":
        S.check(ch.status == 405, "not answered 405")
        allow = ch.header(b"allow")
        S.check(len(allow) == 1, "Allow header")
        S.check(sorted(allow[0].decode("latin-1").split(", ")) == sorted(ms), "Allow does not list exactly the route's methods")
    else:
        S.check(ch.status == 404, "not answered 404")
        S.check(ch.header(b"allow") == [], "Allow on 404")


def a_path(S):
    return "/" + S.str("path", 0, S.q(3, 5), alphabet="a/b01" + "é")


def h_router(S):
    """Which handler a router runs for a path and method, or 405 with Allow, or 404."""
    names = S.choice("table", TABLES)
    kind = S.choice("app", ["router", "app", "added"])
    run_case(S, names, kind, "http", a_path(S), S.choice("method", METHODS))


def h_method(S):
    """Any method token."""
    names = S.choice("table", [t for t in TABLES if t])
    method = S.str("method", 1, S.q(4, 6), ranges=[("A", "Z")])
    run_case(S, names, "router", "http", S.choice("path", ["/a", "/1", "/", "/a/"]), method)


def h_websocket(S):
    """The same for websockets."""
    names = S.choice("table", TABLES)
    kind = S.choice("app", ["router", "app", "added"])
    run_case(S, names, kind, "websocket", a_path(S), None)


def h_order(S):
    """Every ordering of four overlapping routes."""
    left = ["a-get", "a-post", "x-put", "y-get", "ws-x", "cls-get"]
    names = []
    for i in range(S.q(3, 4)):
        n = S.choice("r%d" % i, left)
        left = [x for x in left if x != n]
        names.append(n)
    run_case(S, names, "router", "http", "/" + S.str("path", 1, 2, alphabet="ab/"), S.choice("method", METHODS[:4]))


def h_default(S):
    """A configured default application receives exactly the unmatched requests."""
    got = []

    async def default(scope, receive, send):
        got.append(scope["path"])
        await Response(b"d", status_code=299)(scope, receive, send)

    t = Table()
    specs = [POOL["a-post"], POOL["ws-x"]]
    app = Router(t.build(specs), redirect_slashes=False, default=default)
    path = a_path(S)
    method = S.choice("method", ["GET", "POST"])
    ch = call(app, http_scope(path=path, method=method))
    what, spec, ms = expected(S, specs, "http", path, method)
    S.cover(what)
    S.check((what == "none") == (len(got) == 1) and len(got) <= 1, "default application")
    S.check((what == "none") == (ch.status == 299), "default response")


def h_handlers(S):
    """Within an application, also below mounts, refusals go through the application's own handlers."""
    from starlette.exceptions import HTTPException
    from starlette.responses import PlainTextResponse

    ran = []

    def handler(request, exc):
        ran.append((exc.status_code, (exc.headers or {}).get("Allow"), dict(request.path_params), request.scope.get("endpoint")))
        return PlainTextResponse("h", status_code=exc.status_code, headers=exc.headers)

    by = S.choice("by", ["status", "class"])
    handlers = {404: handler, 405: handler} if by == "status" else {HTTPException: handler}
    t = Table()
    specs = [POOL["a-post"], POOL["x-put"]]
    routes = t.build(specs)
    shape = S.choice("shape", ["flat", "mount", "mounted-router", "twice", "host"])
    prefix = {"flat": "", "host": "", "twice": "/m/n"}.get(shape, "/m")
    if shape == "mount":
        routes = [Mount("/m", routes=routes)]
    elif shape == "mounted-router":
        routes = [Mount("/m", app=Router(routes, redirect_slashes=False))]
    elif shape == "twice":
        routes = [Mount("/m", routes=[Mount("/n", routes=routes)])]
    elif shape == "host":
        routes = [Host("h", app=Router(routes, redirect_slashes=False))]
    app = Starlette(routes=routes, exception_handlers=handlers)
    path = a_path(S)
    method = S.choice("method", ["GET", "POST", "PUT"])
    ch = call(app, http_scope(path=prefix + path, method=method, headers=[(b"host", b"h")]))
    what, spec, ms = expected(S, specs, "http", path, method)
    if what != "none" or shape == "flat" or not bool(S.eq(path, "/")):
        S.cover(what)
    if what == "call":
        S.check(ran == [] and ch.status == 200 and len(t.calls) == 1, "handler")
        return
    code = 405 if what == "405" else 404
    S.check(len(t.calls) == 0, "an endpoint ran though no route serves the request")
    if ch.status == 307:
        # a path below the mount that a slash would lead elsewhere
        S.check(code == 404, "redirected though a route matches the path")
        return
    S.check(ch.status == code and ch.body == b"h", "refusal not answered by the application's handler")
    S.check(len(ran) == 1 and ran[0][0] == code, "the application's handler did not run once with the refusal")
    if code == 405:
        S.check(sorted(ran[0][1].split(", ")) == sorted(ms), "Allow given to the handler")
        params = ran[0][2]
        S.check(sorted(params) == [p[0] for p in spec[3] if not isinstance(p, str)], "the refusal carries the parameters of another route")
        S.check(S.And(*[S.eq(params[k], path[1:]) for k in params]), "values of the parameters of the refusing route")
        S.check(ran[0][3] is t.endpoints[spec[0]], "the refusal carries the endpoint of another route")


ASSUMPTIONS = ["16 route tables drawn from 13 route shapes, and every ordering of 3 (thorough 4) of 6 overlapping routes"]
HARNESSES = [
    dict(name="h_router", covers=["call", "405", "none"], bounds="16 tables x 3 application shapes x 7 methods x paths '/'+<=3 (thorough 5) characters of 6"),
    dict(name="h_method", covers=["call", "405", "none"], bounds="15 tables x 4 paths x any A-Z method of length <= 4 (6)"),
    dict(name="h_websocket", covers=["call", "none"], bounds="16 tables x 3 shapes x paths as h_router"),
    dict(name="h_order", covers=["call", "405", "none"], bounds="all orderings of 3 (4) of 6 routes x 4 methods x paths of length 2..3"),
    dict(name="h_handlers", covers=["call", "405", "none"], bounds="5 nestings x 2 ways of registering x paths as h_router x 3 methods"),
    dict(name="h_default", covers=["call", "405", "none"], bounds="paths as h_router x 2 methods"),
]
