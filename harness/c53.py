"""C53: connections show what the server gave, and share their state with nothing else."""
from hlib import Channel, call, drive, http_scope, run, run_closed, ws_scope

from starlette.applications import Starlette
from starlette.datastructures import State
from starlette.endpoints import HTTPEndpoint
from starlette.middleware import Middleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.requests import HTTPConnection, Request
from starlette.responses import PlainTextResponse
from starlette.routing import Mount, Route
from starlette.websockets import WebSocket

NAMES = ["a", "b"]


def conn(kind, scope):
    async def receive():
        raise RuntimeError("receive")

    async def send(m):
        raise RuntimeError("send")

    if kind == "connection":
        return HTTPConnection(scope)
    if kind == "request":
        return Request(scope, receive, send)
    return WebSocket(scope, receive, send)


def h_view(S):
    """Mapping and properties of a connection."""
    kind = S.choice("kind", ["connection", "request", "websocket"])
    v = S.str("value", 0, 3, ranges=[(0, 255)])
    port = S.int("port", 0, 70000)
    host = S.str("host", 0, 3)
    client = S.choice("client", ["absent", "none", "tuple", "list"])
    headers = [(b"x-" + S.bytes("hn", 0, 1, ranges=[(97, 122)]), v.encode("latin-1")), (b"host", b"h"), (b"x-a", b"2")]
    make = ws_scope if kind == "websocket" else http_scope
    method = S.choice("method", ["GET", "POST", "QUERY"])
    extra = {} if kind == "websocket" else {"method": method}
    scope = make("/p", headers=headers, query=b"q=1&q=2&r=", **extra)
    scope.pop("client", None)
    if client == "none":
        scope["client"] = None
    elif client == "tuple":
        scope["client"] = (host, port)
    elif client == "list":
        scope["client"] = [host, port]
    params = {"k": v}
    if S.flag("params"):
        scope["path_params"] = params
    else:
        params = {}
    key = S.choice("key", ["type", "path", "custom", "missing"])
    scope["custom"] = v
    before = dict(scope)
    c = conn(kind, scope)
    # a mapping
    S.check(len(c) == len(scope) and list(c) == list(scope), "length and keys")
    S.check((key in c) == (key in scope), "membership")
    if key in scope:
        S.check(S.eq(c[key], scope[key]), "items")
    else:
        missed = False
        try:
            c[key]
        except KeyError:
            missed = True
        S.check(missed and c.get(key, "d") == "d", "missing items")
    S.check(S.eq(dict(c.items()), dict(scope.items())), "all items")
    # properties
    if client in ("tuple", "list"):
        S.check(S.And(S.eq(c.client.host, host), S.eq(c.client.port, port)), "client")
        S.check(S.eq(tuple(c.client), (host, port)), "client is a pair")
    else:
        S.check(c.client is None, "no client")
    S.check(S.eq([(a, b) for a, b in c.headers.items()], [(a.decode("latin-1"), b.decode("latin-1")) for a, b in headers]), "headers")
    S.check(c.query_params.multi_items() == [("q", "1"), ("q", "2"), ("r", "")], "query")
    S.check(S.eq(c.path_params, params), "path parameters")
    S.check(c.cookies == {}, "cookies")
    if kind == "request":
        S.check(c.method == method, "method")
    S.check(c.url.path == "/p", "url")
    S.check(S.eq(before, {k: scope[k] for k in before}) and set(scope) == set(before), "the scope is not changed")
    # identity
    other = conn(kind, scope)
    S.check(c == c and c != other and not c == other and len({c, other, c}) == 2, "equal only to itself")
    S.cover(kind)
    S.cover("client:" + client)


def h_guards(S):
    """session, user and auth are those in the scope, or refused."""
    kind = S.choice("kind", ["connection", "request", "websocket"])
    what = S.choice("what", ["session", "user", "auth"])
    present = {w: S.flag(w) for w in ("session", "user", "auth")}
    values = {"session": {"s": S.str("v", 0, 2)}, "user": S.choice("user_v", [None, 0, object()]), "auth": S.choice("auth_v", [None, [], object()])}
    scope = (ws_scope if kind == "websocket" else http_scope)("/")
    for w in values:
        if present[w]:
            scope[w] = values[w]
    c = conn(kind, scope)
    refused = False
    got = None
    try:
        got = getattr(c, what)
    except AssertionError:
        refused = True
    if present[what]:
        S.check(not refused and got is values[what], "the object in the scope")
        S.cover("given")
    else:
        S.check(refused, "refused without its middleware")
        S.cover("refused")
    S.check(set(scope) == set((ws_scope if kind == "websocket" else http_scope)("/")) | {w for w in present if present[w]}, "the scope is not changed")


def h_state(S):
    """A history of reads and writes through several views of two connections."""
    kinds = ["connection", "request", "websocket"]
    scopes, model, views = [], [], []
    kind = S.choice("kind", ["request", "websocket"])
    for i in range(2):
        scope = (ws_scope if kind == "websocket" else http_scope)("/")
        m = {}
        if S.flag("given%d" % i):
            m = {"a": "given%d" % i}
            scope["state"] = dict(m)
        scopes.append(scope)
        model.append(m)
        views.append([conn(kind, scope), conn(kind, scope)])
    n = S.choice("n", [2, 3])
    names = NAMES if n == 2 or S.thorough else NAMES[:1]
    values = [S.str("value%d" % j, 1, 1) for j in range(n)]
    for j in range(n):
        i, w = S.choice("view%d" % j, [(0, 0), (0, 1), (1, 0)])
        view = views[i][w]
        op = S.choice("op%d" % j, ["set", "delete", "get"])
        name = S.choice("name%d" % j, names)
        m = model[i]
        if op == "set":
            setattr(view.state, name, values[j])
            m[name] = values[j]
        elif op == "delete":
            S.assume(name in m)
            delattr(view.state, name)
            del m[name]
        else:
            S.check(hasattr(view.state, name) == (name in m), "presence")
            if name in m:
                S.check(S.eq(getattr(view.state, name), m[name]), "value")
    for i in range(2):
        for view in views[i]:
            for name in NAMES:
                missing = False
                got = None
                try:
                    got = getattr(view.state, name)
                except AttributeError:
                    missing = True
                S.check(missing == (name not in model[i]), "presence at the end")
                if not missing:
                    S.check(S.eq(got, model[i][name]), "value at the end")
        S.check(S.eq(scopes[i]["state"], model[i]), "state lives in the scope")
    S.cover("different" if model[0] != model[1] else "same")


def h_state_app(S):
    """State passes from middleware through mounts to the endpoint and back, and not to the next request."""
    value = S.str("value", 0, 2)
    log = []
    how = S.choice("how", ["function", "pure"])
    mounted = S.flag("mounted")
    server = S.flag("server")

    def before(state):
        log.append(("before", hasattr(state, "a"), hasattr(state, "b"), getattr(state, "s", None)))
        state.a = value

    def after(state):
        log.append(("after", state.b))

    class Pure:
        def __init__(self, app):
            self.app = app

        async def __call__(self, scope, receive, send):
            before(Request(scope).state)
            await self.app(scope, receive, send)
            after(Request(scope).state)

    async def dispatch(request, call_next):
        before(request.state)
        response = await call_next(request)
        after(request.state)
        return response

    async def endpoint(request):
        log.append(("endpoint", request.state.a))
        request.app.state.count = getattr(request.app.state, "count", 0) + 1
        request.state.b = "b"
        return PlainTextResponse("ok")

    routes = [Route("/", endpoint)]
    if mounted:
        routes = [Mount("/m", routes=routes)]
    app = Starlette(routes=routes, middleware=[Middleware(Pure) if how == "pure" else Middleware(BaseHTTPMiddleware, dispatch=dispatch)])
    for i in range(2):
        del log[:]
        scope = http_scope("/m/" if mounted else "/")
        if server:
            scope["state"] = {"s": "s"}
        ch = Channel()

        async def go():
            await app(scope, ch.receive, ch.send)

        run_closed(go())
        S.check(ch.status == 200, "served")
        S.check(log[0] == ("before", False, False, "s" if server else None), "nothing of other requests")
        S.check(log[1][0] == "endpoint" and S.eq(log[1][1], value), "what the middleware stored")
        S.check(log[2:] == [("after", "b")], "what the endpoint stored")
        S.check(app.state.count == i + 1, "the application's state lasts")
    S.cover(how)


def h_state_values(S):
    """State over a given dictionary shares it, without one starts empty."""
    v = S.str("v", 0, 2)
    given = S.choice("given", ["none", "empty", "filled"])
    d = None if given == "none" else {} if given == "empty" else {"a": v}
    s = State(d) if given != "none" or S.flag("explicit") else State()
    t = State(d) if d is not None else State()
    s.b = v
    S.check(S.eq(s.b, v), "read back")
    S.check(hasattr(t, "b") == (d is not None), "shared exactly if the dictionary is")
    S.check(hasattr(s, "a") == (given == "filled"), "starts with what is given")
    if d is not None:
        S.check("b" in d, "stored in the dictionary")
    del s.b
    S.check(not hasattr(s, "b") and not hasattr(t, "b"), "deleted")
    S.cover(given)


PUSHED = ["accept", "accept-encoding", "accept-language", "cache-control", "user-agent"]


def h_push(S):
    """A push promise goes out exactly when supported, with the headers that apply to it only."""
    supported = S.choice("supported", ["no extensions", "other", "push"])
    path = S.str("path", 0, 3)
    n = S.pick("n", 0, S.q(2, 3))
    length = S.choice("length", [1, 6, 10, 13, 15])
    names = [b"accept", b"user-agent", b"cookie", b"cache-control"]
    headers = []
    for i in range(n):
        name = S.choice("name%d" % i, names) if i else S.bytes("name", length, length, ranges=[(45, 45), (97, 122)])
        headers.append((name, S.bytes("value%d" % i, 1, 1, ranges=[(0, 255)])))
    scope = http_scope("/", headers=headers)
    if supported == "other":
        scope["extensions"] = {"http.response.debug": {}}
    elif supported == "push":
        scope["extensions"] = {"http.response.push": {}, "x": {}}
    sent = []

    async def receive():
        raise RuntimeError("receive")

    async def send(m):
        sent.append(m)

    drive(Request(scope, receive, send).send_push_promise(path))
    if supported != "push":
        S.check(sent == [], "sent without support")
        S.cover("refused")
        return
    S.check(len(sent) == 1 and sent[0]["type"] == "http.response.push" and S.eq(sent[0]["path"], path), "one promise of the path")
    S.check(set(sent[0]) == {"type", "path", "headers"}, "fields")
    for name in PUSHED:
        b = name.encode()
        S.check(S.eq([v for k, v in sent[0]["headers"] if k == b], [v for k, v in headers if k == b]), "values of " + name)
    S.check(all(any(k == p.encode() for p in PUSHED) for k, v in sent[0]["headers"]), "other headers are not copied")
    S.cover("pushed" if sent[0]["headers"] else "no headers")


def h_push_app(S):
    """The request an endpoint gets, of whatever kind and wherever it is, can push."""
    kind = S.choice("kind", ["async", "sync", "class", "raw"])
    where = S.choice("where", ["top", "mounted", "middleware", "function middleware", "dispatch"])
    supported = S.flag("supported")
    path = S.str("path", 1, 2)
    value = S.bytes("value", 1, 1, ranges=[(0, 255)])
    promised = []

    async def push(request):
        await request.send_push_promise(path)
        promised.append(1)
        return PlainTextResponse("ok")

    if kind == "async":
        route = Route("/", push)
    elif kind == "sync":

        def endpoint(request):
            drive(request.send_push_promise(path))  # the server's send does not suspend
            promised.append(1)
            return PlainTextResponse("ok")

        route = Route("/", endpoint)
    elif kind == "class":

        class Endpoint(HTTPEndpoint):
            async def get(self, request):
                return await push(request)

        route = Route("/", Endpoint)
    else:

        class Raw:
            async def __call__(self, scope, receive, send):
                response = await push(Request(scope, receive, send))
                await response(scope, receive, send)

        route = Route("/", Raw())

    class Pure:
        def __init__(self, app):
            self.app = app

        async def __call__(self, scope, receive, send):
            await self.app(scope, receive, send)

    async def dispatch(request, call_next):
        if where == "dispatch":
            await request.send_push_promise(path)
        response = await call_next(request)
        return response

    S.assume(not (where in ("function middleware", "dispatch") and kind == "sync"))  # its send suspends
    middleware = [Middleware(Pure)] if where == "middleware" else [Middleware(BaseHTTPMiddleware, dispatch=dispatch)] if where in ("function middleware", "dispatch") else []
    app = Starlette(routes=[Mount("/m", routes=[route])] if where == "mounted" else [route], middleware=middleware)
    scope = http_scope("/m/" if where == "mounted" else "/", headers=[(b"user-agent", value), (b"x-other", b"1")])
    if supported:
        scope["extensions"] = {"http.response.push": {}}
    ch = Channel()

    async def go():
        await app(scope, ch.receive, ch.send)

    run(go())
    S.check(promised == [1] and ch.status == 200, "served")
    pushes = [m for m in ch.sent if m["type"] == "http.response.push"]
    n = 2 if where == "dispatch" else 1
    S.check(len(pushes) == (n if supported else 0), "promises")
    if supported:
        S.check(all(m["type"] == "http.response.push" for m in ch.sent[:n]), "before the response")
        for m in pushes:
            S.check(S.eq(m["path"], path) and S.eq(list(m["headers"]), [(b"user-agent", value)]), "path and headers")
        S.cover("pushed")
    else:
        S.cover("not supported")
    S.cover(kind)


ASSUMPTIONS = ["attribute names of a state do not begin with an underscore; only attributes that exist are deleted", "header names are in lower case, as ASGI says"]
HARNESSES = [
    dict(name="h_view", covers=["connection", "request", "websocket", "client:absent", "client:none", "client:tuple", "client:list"], bounds="every latin-1 header and scope value of <= 3 characters, client host of <= 3 and every port; 3 kinds of connection; 4 forms of client; with and without path parameters"),
    dict(name="h_guards", covers=["given", "refused"], bounds="each presence combination of session, user and auth with false and true values; 3 kinds of connection"),
    dict(name="h_state", covers=["different", "same"], bounds="every history of 2 sets, deletes and reads of 2 names, or 3 of one (thorough: two), through 2 views of one connection and one of another, with and without a state given by the server"),
    dict(name="h_state_app", covers=["function", "pure"], bounds="two requests through function or plain middleware, mounted or not, with and without server state; every value of <= 2 characters"),
    dict(name="h_state_values", covers=["none", "empty", "filled"], bounds="three forms of dictionary"),
    dict(name="h_push", covers=["refused", "pushed", "no headers"], bounds="every path of <= 3 characters; <= 2 (3) headers, the first with any name of 1, 6, 10, 13 or 15 characters over a-z and -, the others from 4 names; 3 forms of extensions"),
    dict(name="h_push_app", covers=["pushed", "not supported", "async", "sync", "class", "raw"], bounds="endpoints of 4 kinds at the top, mounted, under plain and under function middleware, and function middleware itself; every path of 1 or 2 characters and header value of one byte"),
]
