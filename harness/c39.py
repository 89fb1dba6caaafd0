"""C39: endpoints guarded by scopes run only for authorised users."""
import functools

from hlib import Channel, drive, http_scope, ws_scope

from starlette.applications import Starlette
from starlette.authentication import AuthCredentials, AuthenticationBackend, AuthenticationError, BaseUser, SimpleUser, UnauthenticatedUser, requires
from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.requests import HTTPConnection, Request
from starlette.responses import PlainTextResponse
from starlette.routing import Route, WebSocketRoute


class Backend(AuthenticationBackend):
    def __init__(self, results):
        self.results = list(results)

    async def authenticate(self, conn):
        r = self.results.pop(0)
        if isinstance(r, Exception):
            raise r
        return r


def attempt(app, scope, messages=None):
    ch = Channel(messages)
    try:
        drive(app(scope, ch.receive, ch.send))
    except Exception as e:
        return ch, e
    return ch, None


def guarded(kind, guard, runs):
    """An endpoint of some kind under a guard; runs records its executions."""
    if kind == "sync":

        @guard
        def endpoint(request):
            runs.append(request)
            return PlainTextResponse("ok")

    elif kind == "async":

        @guard
        async def endpoint(request):
            runs.append(request)
            return PlainTextResponse("ok")

    elif kind == "second":

        @guard
        async def inner(extra, request):
            runs.append(request)
            return PlainTextResponse("ok")

        async def endpoint(request):
            return await inner("x", request)

    elif kind == "keyword":

        @guard
        def inner(extra, *, request):
            runs.append(request)
            return PlainTextResponse("ok")

        def endpoint(request):
            return inner("x", request=request)

    elif kind == "keyword-async":

        @guard
        async def inner(request, extra):
            runs.append(request)
            return PlainTextResponse("ok")

        async def endpoint(request):
            return await inner(extra="x", request=request)

    elif kind == "class-sync":

        class endpoint(HTTPEndpoint):
            @guard
            def get(self, request):
                runs.append(request)
                return PlainTextResponse("ok")

    elif kind == "class-async":

        class endpoint(HTTPEndpoint):
            @guard
            async def get(self, request):
                runs.append(request)
                return PlainTextResponse("ok")

    elif kind == "partial":

        async def inner(extra, request):
            runs.append(request)
            return PlainTextResponse("ok")

        guarded_inner = guard(functools.partial(inner, "x"))

        async def endpoint(request):
            return await guarded_inner(request)

    elif kind == "callable":

        class Inner:
            async def __call__(self, request):
                runs.append(request)
                return PlainTextResponse("ok")

        guarded_call = guard(Inner())

        async def endpoint(request):
            return await guarded_call(request)

    return endpoint


KINDS = ["sync", "async", "second", "keyword", "keyword-async", "class-sync", "class-async", "partial", "callable"]


def holds(S, required, held):
    return S.And(*[S.Or(*[S.eq(r, h) for h in held]) for r in required])


def wrap(app_routes, results, **kw):
    return Starlette(routes=app_routes, middleware=[Middleware(AuthenticationMiddleware, backend=Backend(results), **kw)])


def names(S, label, n, size):
    return [S.str("%s%d" % (label, i), 0, size) for i in range(S.pick(label, 0, n))]


def h_scopes(S):
    """Every set of held and required scopes."""
    size = S.q(2, 3)
    single = S.flag("single")
    required = [S.str("one", 0, size)] if single else names(S, "required", S.q(2, 3), size)
    held = names(S, "held", 2, size)
    kind = S.choice("kind", ["sync", "async"])
    runs = []
    endpoint = guarded(kind, requires(required[0] if single else required), runs)
    app = wrap([Route("/", endpoint)], [(AuthCredentials(held), SimpleUser("u"))])
    ch, error = attempt(app, http_scope())
    S.check(error is None, "no error")
    allowed = holds(S, required, held)
    if runs:
        S.check(allowed, "an endpoint ran without its scopes")
        S.check(len(runs) == 1 and ch.status == 200 and ch.body == b"ok", "its response")
        S.cover("allowed")
    else:
        S.check(S.Not(allowed), "an endpoint was refused in spite of its scopes")
        S.check(ch.status == 403, "refused")
        S.cover("refused")


def h_kinds(S):
    """Every kind of endpoint, two requests in a row."""
    kind = S.choice("kind", KINDS)
    required = S.choice("required", ["a", ["a"], ("a", "b"), ["a", "b", "c"]])
    needed = [required] if isinstance(required, str) else list(required)
    status = S.choice("status", [403, 404, 401])
    redirect = S.choice("redirect", [None, "login"])
    everyone = ["a", "b", "c"]
    helds = []
    for i in range(2):
        helds.append([s for s in everyone if S.flag("held%d%s" % (i, s))] + (["x"] if i else []))
    runs = []
    endpoint = guarded(kind, requires(required, status_code=status, redirect=redirect), runs)
    if isinstance(required, list):
        del required[:]  # the guard keeps the scopes it was given
    app = wrap([Route("/", endpoint), Route("/login", lambda r: None, name="login")], [(AuthCredentials(h), SimpleUser("u")) for h in helds])
    for held in helds:
        del runs[:]
        ch, error = attempt(app, http_scope())
        S.check(error is None, "no error")
        if all(s in held for s in needed):
            S.check(len(runs) == 1 and isinstance(runs[0], Request) and ch.status == 200 and ch.body == b"ok", "it runs")
            S.cover("allowed")
        else:
            S.check(runs == [], "it does not run")
            if redirect is None:
                S.check(ch.status == status, "the configured status")
                S.cover("status")
            else:
                S.check(ch.status == 303 and ch.header(b"location") == [b"http://testserver/login?next=http%3A%2F%2Ftestserver%2F"], "a redirect")
                S.cover("redirect")


def unhex(S, c):
    o = ord(c)
    if (o >= 48) & (o <= 57):
        return o - 48
    S.check(S.And(o >= 65, o <= 70), "a hexadecimal digit")
    return o - 55


def form_decoded(S, text):
    """The bytes a query parameter value denotes."""
    out = []
    i = 0
    while i < len(text):
        c = text[i]
        if c == "%":
            S.check(i + 2 < len(text), "a truncated escape")
            out.append(unhex(S, text[i + 1]) * 16 + unhex(S, text[i + 2]))
            i += 3
            continue
        S.check(S.Not(S.one_of(c, "&#=;")), "a delimiter in the value")
        out.append(S.If(c == "+", 32, ord(c)))
        i += 1
    return out


def h_redirect(S):
    """The original URL is carried in 'next'."""
    n = S.q(2, 3)
    path = S.str("path", 0, n, exclude="?#", ranges=[(0x21, 0x7E)])
    query = S.str("query", 0, n - len(path), ranges=[(0x20, 0x7E)])
    runs = []
    endpoint = guarded(S.choice("kind", ["sync", "async"]), requires("a", redirect="login"), runs)
    target = S.choice("target", ["/login", "/l/in"])
    seen = []

    class Recorder:
        def __init__(self, app):
            self.app = app

        async def __call__(self, scope, receive, send):
            seen.append(str(Request(dict(scope)).url))
            await self.app(scope, receive, send)

    app = Starlette(
        routes=[Route("/p{rest:path}", endpoint), Route(target, lambda r: None, name="login")],
        middleware=[Middleware(Recorder), Middleware(AuthenticationMiddleware, backend=Backend([None]))],
    )
    ch, error = attempt(app, http_scope("/p" + path, query=query.encode("latin-1")))
    S.check(error is None and runs == [] and ch.status == 303, "a redirect")
    location = ch.header(b"location")[0].decode("latin-1")
    prefix = "http://testserver" + target + "?next="
    S.check(location[: len(prefix)] == prefix, "to the named route")
    value = form_decoded(S, location[len(prefix) :])
    want = seen[0]
    S.check(len(value) == len(want) and S.And(*[a == ord(b) for a, b in zip(value, want)]), "the original URL in next")
    S.cover("redirect")


def h_websocket(S):
    """Guarded websocket endpoints."""
    kind = S.choice("kind", ["function", "keyword", "second", "class"])
    required = S.choice("required", ["a", ["a", "b"], []])
    needed = [required] if isinstance(required, str) else required
    held = names(S, "held", 2, 1)
    guard = requires(required)
    runs = []
    if kind == "class":

        class endpoint(WebSocketEndpoint):
            @guard
            async def on_connect(self, websocket):
                runs.append(websocket)
                await websocket.accept()

    elif kind == "function":

        @guard
        async def endpoint(websocket):
            runs.append(websocket)
            await websocket.accept()

    elif kind == "second":

        @guard
        async def inner(extra, websocket):
            runs.append(websocket)
            await websocket.accept()

        async def endpoint(websocket):
            await inner("x", websocket)

    else:

        @guard
        async def inner(extra, websocket):
            runs.append(websocket)
            await websocket.accept()

        async def endpoint(websocket):
            await inner(extra="x", websocket=websocket)

    app = wrap([WebSocketRoute("/", endpoint)], [(AuthCredentials(held), SimpleUser("u"))])
    ch, error = attempt(app, ws_scope(), [{"type": "websocket.connect"}, {"type": "websocket.disconnect", "code": 1000}])
    allowed = holds(S, needed, held)
    S.check(error is None, "no error")
    if runs:
        S.check(allowed, "an endpoint ran without its scopes")
        S.check(len(runs) == 1 and [m["type"] for m in ch.sent] == ["websocket.accept"], "accepted")
        S.cover("allowed")
    else:
        S.check(S.Not(allowed), "an endpoint was refused in spite of its scopes")
        S.check([(m["type"], m["code"]) for m in ch.sent] == [("websocket.close", 1000)], "closed")
        S.cover("refused")


class Custom(AuthenticationError):
    pass


class Boom(Exception):
    pass


def h_middleware(S):
    """Every backend outcome."""
    typ = S.choice("type", ["http", "websocket", "lifespan"])
    creds = AuthCredentials(names(S, "scope", 1, 1))
    text = S.str("text", 0, 2)
    result = S.choice("result", ["none", "some", "error", "suberror", "boom"])
    user = S.choice("user", [SimpleUser("u"), UnauthenticatedUser(), SimpleUser("")]) if result == "some" else None
    boom = S.choice("boom", [Boom("b"), ValueError("v"), KeyError("k"), PermissionError("p")]) if result == "boom" else None
    r = {"none": None, "some": (creds, user), "error": AuthenticationError(text), "suberror": Custom(text), "boom": boom}[result]
    custom = S.flag("custom")
    calls = []
    reached = []

    def on_error(conn, exc):
        calls.append((conn, exc))
        return PlainTextResponse("denied", status_code=418)

    async def app(scope, receive, send):
        reached.append(scope)
        if scope["type"] != "lifespan":
            conn = HTTPConnection(scope)
            reached.append((conn.auth, conn.user))

    mw = AuthenticationMiddleware(app, backend=Backend([r]), on_error=on_error) if custom else AuthenticationMiddleware(app, backend=Backend([r]))
    scope = {"http": http_scope("/p", method=S.choice("method", ["GET", "OPTIONS", "HEAD"]) if typ == "http" else "GET"), "websocket": ws_scope("/p"), "lifespan": {"type": "lifespan"}}[typ]
    outer = S.flag("outer") if typ != "lifespan" else False
    if outer:  # an enclosing authentication middleware's
        scope["auth"], scope["user"] = AuthCredentials(["root"]), SimpleUser("root")
    ch, error = attempt(mw, scope, [])
    if typ == "lifespan":
        S.check(error is None and len(reached) == 1 and calls == [] and "auth" not in scope, "other connections are not authenticated")
        S.cover("lifespan")
        return
    if result == "boom":
        S.check(error is r and reached == [] and ch.sent == [], "other errors propagate")
        S.cover("boom")
        return
    S.check(error is None, "no error")
    if result in ("error", "suberror"):
        S.check(reached == [], "the application is not reached")
        if custom:
            S.check(len(calls) == 1 and calls[0][1] is r and calls[0][0].scope["path"] == "/p", "the callback")
        if typ == "websocket":
            S.check([(m["type"], m["code"]) for m in ch.sent] == [("websocket.close", 1000)], "closed")
        elif custom:
            S.check(ch.status == 418 and ch.body == b"denied", "the callback's response")
        else:
            S.check(ch.status == 400, "status")
            S.check(ch.body == text.encode(), "the error text")
        S.cover(result)
        return
    S.check(ch.sent == [] and calls == [] and len(reached) == 2, "the application runs once")
    auth, seen = reached[1]
    if result == "some":
        S.check(auth is creds and seen is user, "exactly the backend's")
    else:
        S.check(auth.scopes == [] and isinstance(seen, BaseUser) and seen.is_authenticated is False and seen.display_name == "", "anonymous")
    S.cover(result)


def h_history(S):
    """Nothing is carried over between connections."""
    outcomes = [S.choice("o%d" % i, ["none", "a", "ab", "error"]) for i in range(3)]
    grab = S.flag("grab")
    results = []
    own = {"a": ["a"], "ab": ["a", "b"]}  # the backend's lists stay its own
    for o in outcomes:
        results.append({"none": None, "a": (AuthCredentials(own["a"]), SimpleUser("a")), "ab": (AuthCredentials(own["ab"]), SimpleUser("ab")), "error": AuthenticationError("no")}[o])
    log = []

    async def open_to_all(request):
        log.append((list(request.auth.scopes), request.user.display_name))
        if grab:
            request.auth.scopes.append("b")
        return PlainTextResponse("ok")

    app = wrap([Route("/", open_to_all), Route("/b", guarded("async", requires("b"), log))], results + [None])
    for o in outcomes:
        del log[:]
        ch, error = attempt(app, http_scope("/"))
        if o == "error":
            S.check(log == [] and ch.status == 400, "refused")
        else:
            S.check(log == [{"none": ([], ""), "a": (["a"], "a"), "ab": (["a", "b"], "ab")}[o]], "this connection's credentials")
    ch, error = attempt(app, http_scope("/b"))
    S.check(ch.status == 403, "anonymous")
    S.check(own == {"a": ["a"], "ab": ["a", "b"]}, "the backend's lists")
    S.cover("history")


def h_large(S):
    """Many scopes held and required."""
    n = 60
    held = ["s%d" % i for i in range(n)]
    required = list(held)
    lost = S.choice("lost", [None, 0, n // 2, n - 1])
    other = "" if lost is None else S.str("other", 0, 3)
    if lost is not None:
        held[lost] = other
    runs = []
    endpoint = guarded(S.choice("kind", ["sync", "async"]), requires(required), runs)
    if S.flag("reverse"):
        held.reverse()
    app = wrap([Route("/", endpoint)], [(AuthCredentials(held), SimpleUser("u"))])
    ch, error = attempt(app, http_scope())
    S.check(error is None, "no error")
    allowed = lost is None or S.eq(other, "s%d" % lost)
    if runs:
        S.check(allowed, "an endpoint ran without its scopes")
        S.cover("allowed")
    else:
        S.check(S.Not(allowed), "an endpoint was refused in spite of its scopes")
        S.cover("refused")


ASSUMPTIONS = [
    "AuthCredentials are built from sequences of scope names",
    "functions sent to worker threads run in place (native replay uses real threads)",
    "redirects: request paths and queries of printable ASCII",
]
HARNESSES = [
    dict(name="h_scopes", covers=["allowed", "refused"], bounds="<= 2 (thorough 3) required scopes or a single string, <= 2 held, every text of <= 2 (thorough 3) characters, sync and async endpoints"),
    dict(name="h_kinds", covers=["allowed", "status", "redirect"], bounds="9 kinds of endpoint and argument forms x 4 requirements x every pair of subsets of 3 scopes in consecutive requests x 3 statuses x redirect"),
    dict(name="h_redirect", covers=["redirect"], bounds="every path and query of together <= 2 (thorough 3) printable ASCII characters, 2 targets, sync and async"),
    dict(name="h_websocket", covers=["allowed", "refused"], bounds="4 endpoint forms, 3 requirements, <= 2 held scopes of <= 1 character"),
    dict(name="h_middleware", covers=["lifespan", "boom", "error", "suberror", "none", "some"], bounds="5 backend outcomes (3 users, anonymous with scopes among them; 4 other errors) x 3 connection types (3 methods) x with or without credentials of an enclosing middleware x default/custom callback; every error text of <= 2 characters"),
    dict(name="h_history", covers=["history"], bounds="every sequence of three outcomes of 4, then an anonymous request to a guarded endpoint"),
    dict(name="h_large", covers=["allowed", "refused"], bounds="60 scopes required, one of three replaced by any text of length <= 3"),
]
