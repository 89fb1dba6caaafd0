"""C60: an answer does not depend on the requests answered before."""
import os
import shutil
import tempfile
import time

from hlib import Channel, Workers, http_scope, run, ws_scope

from starlette.applications import Starlette
from starlette.authentication import AuthCredentials, AuthenticationBackend, AuthenticationError, SimpleUser, requires
from starlette.background import BackgroundTask, BackgroundTasks
from starlette.config import Config
from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
from starlette.exceptions import HTTPException, WebSocketException
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.httpsredirect import HTTPSRedirectMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.middleware.trustedhost import TrustedHostMiddleware
from starlette.requests import Request
from starlette.responses import FileResponse, JSONResponse, PlainTextResponse, RedirectResponse, StreamingResponse
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute
from starlette.schemas import SchemaGenerator
from starlette.staticfiles import StaticFiles

NOW = 1700000000


class Clock:
    def __enter__(self):
        self.real = time.time
        time.time = lambda: NOW

    def __exit__(self, *exc):
        time.time = self.real


class Client(Channel):
    """A client that keeps what it got as it was when it got it."""

    error = None

    async def send(self, message):
        message = dict(message)
        if "headers" in message:
            message["headers"] = list(message["headers"])
        self.sent.append(message)


def ask(app, scope, messages):
    c = Client(messages)

    async def go():
        try:
            await app(dict(scope), c.receive, c.send)
        except Exception as e:
            c.error = type(e).__name__ + str(e.args)

    run(go())
    return c


def after(S, make, requests, between=None):
    """The last request's answer, after the others and by itself."""
    log, fresh = [], []
    with Clock(), Workers():
        if between is None:
            want = ask(make(fresh), *requests[-1])
            S.restart()
        app = make(log)
        for scope, messages in requests[:-1]:
            ask(app, scope, messages)
        del log[:]
        if between is not None:
            between()
        got = ask(app, *requests[-1])
        if between is not None:
            S.restart()
            want = ask(make(fresh), *requests[-1])
    S.check(got.error == want.error, "the error")
    S.check(len(got.sent) == len(want.sent), "number of messages")
    for a, b in zip(got.sent, want.sent):
        S.check(sorted(a) == sorted(b), "keys of a message")
        for k in b:
            S.check(S.eq(a[k], b[k]), "value of " + k)
    S.check(len(log) == len(fresh) and S.eq(log, fresh), "what was done")
    return got


async def echo(request):
    text = [request.method, str(request.url), str(request.base_url), request["root_path"]]
    text += ["%s=%s" % x for x in sorted(request.path_params.items())] + ["%s=%s" % x for x in request.query_params.multi_items()]
    return PlainTextResponse("|".join(text) + "|" + (await request.body()).decode("latin-1"))


def named(name):
    async def endpoint(request):
        response = await echo(request)
        response.headers["x-endpoint"] = name
        return response

    endpoint.__name__ = name
    return endpoint


class Class(HTTPEndpoint):
    async def get(self, request):
        return await echo(request)

    async def post(self, request):
        return await echo(request)


def h_routes(S):
    """Routes that share paths, told apart by method, host or kind."""
    p = S.str("p", 1, 1, ranges=[(97, 122)])
    requests = []
    for i in range(2):
        path = S.choice("path%d" % i, ["/a", "/b/" + p, "/m/a", "/c", "/none"])
        host = S.choice("host%d" % i, [b"h.org", b"x.api.org:80", None])
        headers = [] if host is None else [(b"host", host)]
        if i and S.flag("websocket"):
            requests.append((ws_scope(path, headers=headers), [{"type": "websocket.connect"}, {"type": "websocket.disconnect", "code": 1000}]))
        else:
            method = S.choice("method%d" % i, ["GET", "POST", "PUT", "HEAD"])
            requests.append((http_scope(path, method=method, headers=headers, query=b"i=%d" % i), [{"type": "http.request", "body": b"%d" % i}]))

    def make(log):
        async def ws(websocket):
            await websocket.accept()
            log.append(("ws", dict(websocket.path_params)))

        return Starlette(
            routes=[
                Host("{sub}.api.org", Router(routes=[Route("/a", named("api")), Route("/b/{q}", named("api-b"), methods=["PUT"])]), name="api"),
                Route("/a", named("get")),
                Route("/a", named("post"), methods=["POST"]),
                WebSocketRoute("/a", ws),
                Route("/b/{p:int}", named("int"), methods=["POST"]),
                Route("/b/{p}", named("str")),
                Route("/c", Class),
                WebSocketRoute("/b/{w}", ws),
                Mount("/m", routes=[Route("/a", named("inner"), methods=["POST"])]),
                Mount("/m", app=Router(routes=[Route("/{x}", named("second"))])),
            ]
        )

    got = after(S, make, requests)
    S.cover(str(got.status) if requests[1][0]["type"] == "http" else "websocket")


def h_urls(S):
    """Redirects and links, whose address is that of the request."""
    p = S.str("p", 1, 1, ranges=[(97, 122)])
    requests = []
    for i in range(2):
        root = S.choice("root%d" % i, ["", "/r"])
        path = S.choice("path%d" % i, ["/t", "/u/", "/links/" + p, "/m/links/" + (p if i else "z"), "/m/t"])
        headers = [(b"host", S.choice("host%d" % i, [b"a.org", b"b.org:8000"]))]
        requests.append((http_scope(root + path, root_path=root, headers=headers, query=[b"", b"x=1"][i], scheme=S.choice("scheme%d" % i, ["http", "https"])), None))

    def make(log):
        async def links(request):
            p = request.path_params["p"]
            urls = [request.url_for("links", p=p), request.url_for("in:links", p=p + "1"), request.url_for("same", a=p), request.url_for("same", b=p), request.app.url_path_for("same", b=p)]
            return PlainTextResponse(" ".join([str(u) for u in urls] + [str(request.url), str(request.base_url)]))

        return Starlette(
            routes=[
                Route("/t/", echo),
                Route("/u", echo),
                Route("/links/{p}", links, name="links"),
                Route("/same/{a}", echo, name="same"),
                Route("/also/{b}", echo, name="same"),
                Mount("/m", routes=[Route("/links/{p}", links, name="links"), Route("/t/", echo)], name="in"),
            ]
        )

    got = after(S, make, requests)
    S.cover(str(got.status))


class Backend(AuthenticationBackend):
    async def authenticate(self, conn):
        user = conn.headers.get("x-user")
        if user is None:
            return None
        if user == "bad":
            raise AuthenticationError("bad")
        return AuthCredentials(["in"] if user > "m" else []), SimpleUser(user)


class Timing(BaseHTTPMiddleware):
    async def dispatch(self, request, call_next):
        if request.headers.get("x-h") == "early":
            return PlainTextResponse("early")
        if request.headers.get("x-h") == "read":
            request.state.body = await request.body()
        response = await call_next(request)
        response.headers["x-state"] = str(sorted(request.state._state.items()))
        return response


STACKS = {
    "cors": lambda: Middleware(CORSMiddleware, allow_origins=["http://a", "http://b"], allow_origin_regex="http://[x-z]", allow_methods=["GET", "PUT"], allow_headers=["x-a"], allow_credentials=True),
    "cors any": lambda: Middleware(CORSMiddleware, allow_origins=["*"], allow_headers=["*"], allow_methods=["*"]),
    "gzip": lambda: Middleware(GZipMiddleware, minimum_size=3),
    "auth": lambda: Middleware(AuthenticationMiddleware, backend=Backend()),
    "function": lambda: Middleware(Timing),
    "hosts": lambda: Middleware(TrustedHostMiddleware, allowed_hosts=["a.org", "*.b.org", "www.c.org"]),
    "https": lambda: Middleware(HTTPSRedirectMiddleware),
    "session": lambda: Middleware(SessionMiddleware, secret_key="k", max_age=10),
}
HEADERS = {
    "cors": [("origin", [None, "http://a", "http://x", "http://c"]), ("cookie", [None, "a=b"]), ("access-control-request-method", [None, "PUT", "POST"]), ("access-control-request-headers", [None, "x-a", "x-b"])],
    "cors any": [("origin", [None, "http://a", "http://x"]), ("cookie", [None, "a=b"]), ("access-control-request-method", [None, "PUT"]), ("access-control-request-headers", [None, "x-a", "x-b"])],
    "gzip": [("accept-encoding", [None, "gzip", "gzip;q=0", "br"])],
    "auth": [("x-user", [None, "bad", "a", "z"])],
    "function": [("x-h", [None, "early", "read"])],
    "hosts": [("host", ["a.org", "x.b.org", "c.org", "d.org", "a.org:80"])],
    "https": [("host", ["a.org", "a.org:80", "b.org:8080"])],
    "session": [("cookie", [None, "session=x.y.z", "valid", "other=1"])],
}
PATHS = {"gzip": ["/", "/small", "/streamed"], "auth": ["/", "/in"], "session": ["/", "/login", "/logout"], "function": ["/", "/streamed", "/error"]}
COOKIES = {}


def session_cookie():
    """A validly signed session."""
    if not COOKIES:

        async def app(scope, receive, send):
            scope["session"]["old"] = 1
            await PlainTextResponse("")(scope, receive, send)

        with Clock():
            c = ask(SessionMiddleware(app, "k"), http_scope("/"), None)
        COOKIES["session"] = c.header(b"set-cookie")[0].split(b";")[0]
    return COOKIES["session"]


def h_stack(S):
    """Middleware of every kind."""
    name = S.choice("stack", sorted(STACKS))
    letter = S.str("letter", 1, 1, ranges=[(97, 122)])
    requests = []
    for i in range(2):
        headers = [(b"x-letter", letter.encode() if i else b"0")]
        for key, values in HEADERS[name]:
            value = S.choice("%s%d" % (key, i), values)
            if value is not None:
                headers.append((key.encode(), session_cookie() if value == "valid" else value.encode()))
        path = S.choice("path%d" % i, PATHS.get(name, ["/"]))
        method = "OPTIONS" if any(k == b"access-control-request-method" for k, v in headers) else ["GET", "POST"][i]
        scheme = S.choice("scheme%d" % i, ["http", "https"]) if name == "https" else "http"
        requests.append((http_scope(path, method=method, headers=headers, scheme=scheme), [{"type": "http.request", "body": b"%d" % i}]))

    def make(log):
        async def main(request):
            extra = ""
            if name == "session":
                extra = str(sorted(request.session.items()))
            if name == "auth":
                extra = str((request.user.is_authenticated, request.user.display_name, request.auth.scopes))
                request.auth.scopes.append("more")
            request.state.seen = True
            headers = {"vary": "x-l"} if request.method == "POST" else {"access-control-allow-origin": "mine"}
            return PlainTextResponse(extra + request.headers["x-letter"] * 4 + (await request.body()).decode(), headers=headers, background=BackgroundTask(log.append, request.headers["x-letter"]))

        async def small(request):
            return PlainTextResponse(request.headers["x-letter"])

        async def streamed(request):
            async def chunks():
                for _ in range(3):
                    yield request.headers["x-letter"].encode()

            return StreamingResponse(chunks())

        async def error(request):
            raise HTTPException(418, request.headers["x-letter"])

        async def login(request):
            request.session["who"] = request.method
            return PlainTextResponse(str(sorted(request.session.items())))

        async def logout(request):
            request.session.clear()
            return PlainTextResponse("out")

        @requires("in")
        async def inside(request):
            return PlainTextResponse(request.user.display_name)

        methods = ["GET", "POST", "OPTIONS"]
        routes = [Route(p, e, methods=methods) for p, e in [("/", main), ("/small", small), ("/streamed", streamed), ("/login", login), ("/logout", logout), ("/in", inside), ("/error", error)]]
        return Starlette(routes=routes, middleware=[STACKS[name]()])

    after(S, make, requests)
    S.cover(name)


class Teapot(Exception):
    pass


class Small(Teapot):
    pass


class Kettle(HTTPException):
    pass


ERRORS = {
    "none": None,
    "teapot": lambda t: Teapot(t),
    "small": lambda t: Small(t),
    "value": lambda t: ValueError(t),
    "404": lambda t: HTTPException(404, t),
    "418": lambda t: HTTPException(418, t),
    "kettle": lambda t: Kettle(418, t),
    "kettle 404": lambda t: Kettle(404, t, headers={"x-t": t}),
}


def h_errors(S):
    """Every kind of error, with handlers that differ between applications."""
    t = S.str("t", 1, 1, ranges=[(97, 122)])
    requests = []
    for i in range(2):
        what = S.choice("what%d" % i, sorted(ERRORS))
        where = S.choice("where%d" % i, ["", "/in"])
        accept = S.choice("accept%d" % i, [b"text/html", b"text/plain"]) if what == "value" else b"*/*"
        requests.append((http_scope(where + "/" + what, headers=[(b"x-t", t.encode() if i else b"0"), (b"accept", accept)]), None))

    def make(log):
        async def endpoint(request):
            what = request.path_params["what"]
            if what != "none":
                raise ERRORS[what](request.headers["x-t"])
            return PlainTextResponse("fine")

        def handler(label):
            async def handle(request, exc):
                log.append((label, type(exc).__name__))
                return PlainTextResponse(label + str(exc))

            return handle

        inner = Starlette(routes=[Route("/{what}", endpoint)], exception_handlers={Small: handler("inner small"), Teapot: handler("inner teapot"), 404: handler("inner 404")})
        return Starlette(
            routes=[Mount("/in", inner), Route("/{what}", endpoint)],
            exception_handlers={Teapot: handler("teapot"), 418: handler("418"), Kettle: handler("kettle"), 500: handler("500")},
        )

    got = after(S, make, requests)
    S.cover("error" if got.error else str(got.status))


def h_read(S):
    """Requests whose cookies, parameters, forms, state or files the application reads and changes."""
    v = S.str("v", 1, 1, ranges=[(97, 122)])
    requests = []
    same = S.flag("same")
    for i in range(2):
        kind = S.choice("kind%d" % i, ["cookies", "params", "query", "state", "form", "json", "class", "headers", "websocket"])
        text = "0" if same or not i else v
        headers = [(b"cookie", b"a=" + text.encode() + b"; b=2"), (b"x-h", text.encode())]
        body = b"a=" + text.encode() + b"&b=2"
        if kind == "form":
            headers.append((b"content-type", b"application/x-www-form-urlencoded"))
        if kind == "json":
            body = b'["' + text.encode() + b'", {}]'
        path = "/" + kind + "/" + text
        if kind == "websocket":
            requests.append((ws_scope(path, headers=headers), [{"type": "websocket.connect"}, {"type": "websocket.receive", "text": text}, {"type": "websocket.disconnect", "code": 1001}]))
        else:
            requests.append((http_scope(path, method="POST", headers=headers, query=b"a=" + text.encode() + b"&b=2"), [{"type": "http.request", "body": body}]))

    def make(log):
        async def endpoint(request):
            kind = request.path_params["kind"]
            if kind == "cookies":
                value = request.cookies
            elif kind == "params":
                value = request.path_params
            elif kind == "query":
                value = request.query_params._dict
            elif kind == "state":
                request.state.a = getattr(request.state, "a", 0) + 1
                value = dict(request.state._state)
            elif kind == "form":
                value = (await request.form())._dict
            elif kind == "json":
                value = (await request.json())[1]
            else:
                value = dict(request.headers)
            text = str(sorted(value.items()))
            if hasattr(value, "clear"):
                value["extra%d" % len(value)] = "1"
            response = PlainTextResponse(text)
            response.set_cookie("seen", "1")
            response.headers["x-extra"] = "1"
            response.background = BackgroundTasks([BackgroundTask(log.append, kind)])
            return response

        class Counting(HTTPEndpoint):
            count = 0

            async def post(self, request):
                self.count += 1
                return JSONResponse([self.count, self._allowed_methods])

        class Echo(WebSocketEndpoint):
            encoding = "text"
            got = ""

            async def on_receive(self, websocket, data):
                self.got += data
                await websocket.send_text(self.got)

            async def on_disconnect(self, websocket, close_code):
                log.append((self.got, close_code))

        return Starlette(routes=[Route("/class/{x}", Counting), WebSocketRoute("/websocket/{x}", Echo), Route("/{kind}/{x}", endpoint, methods=["POST"])])

    after(S, make, requests)
    S.cover(requests[1][0]["path"].split("/")[1])


def h_files(S):
    """A directory whose files change between the requests."""
    change = S.choice("change", ["none", "rewrite", "same size", "same second", "delete", "create", "replace by directory", "touch"])
    requests = []
    for i in range(2):
        path = S.choice("path%d" % i, ["/f.txt", "/new.txt", "/d", "/d/", "/none"])
        headers = []
        rng = S.choice("range%d" % i, [None, b"bytes=1-2", b"bytes=7-"])
        if rng is not None:
            headers.append((b"range", rng))
        requests.append((http_scope(path, method=S.choice("method%d" % i, ["GET", "HEAD"]), headers=headers), None))
    html = S.flag("html")
    d = tempfile.mkdtemp()

    def put(name, content, when):
        p = os.path.join(d, name)
        with open(p, "wb") as f:
            f.write(content)
        os.utime(p, ns=(when, when))

    def between():
        f = os.path.join(d, "f.txt")
        if change == "rewrite":
            put("f.txt", b"much more than before", NOW * 10**9 + 10**10)
        elif change == "same size":
            put("f.txt", b"FILE!", NOW * 10**9 + 10**10)
        elif change == "same second":
            put("f.txt", b"FILE!", NOW * 10**9 + 5 * 10**8)
        elif change == "touch":
            os.utime(f, ns=(10**9, 10**9))
        elif change == "delete":
            os.unlink(f)
        elif change == "create":
            put("new.txt", b"new", NOW * 10**9)
        elif change == "replace by directory":
            os.unlink(f)
            os.mkdir(f)
            put("f.txt/index.html", b"inner", NOW * 10**9)

    tags = []
    try:
        put("f.txt", b"file.", NOW * 10**9)
        os.mkdir(os.path.join(d, "d"))
        put("d/index.html", b"index", NOW * 10**9)

        def make(log):
            return Starlette(routes=[Mount("/", StaticFiles(directory=d, html=html))])

        got = after(S, make, requests, between)
        if got.status == 200 and requests[1][0]["method"] == "GET" and path in ("/f.txt", "/new.txt"):
            with open(d + path, "rb") as f:
                S.check(got.body == f.read(), "the file as it is now")
        if change == "same second":
            # What the client got before the change is no longer current.
            put("f.txt", b"file.", NOW * 10**9)
            with Workers():
                app = make([])
                old = ask(app, http_scope("/f.txt"), None).header(b"etag")[0]
                between()
                again = ask(app, http_scope("/f.txt", headers=[(b"if-none-match", old)]), None)
            S.check(again.status == 200 and again.body == b"FILE!", "changed within the second")
    finally:
        shutil.rmtree(d)
    S.cover(change)
    S.cover(str(got.status))


def h_longer(S):
    """Several requests before, to one application with all of it."""
    n = S.q(3, 4)
    v = S.str("v", 1, 1, ranges=[(97, 122)])
    pool = [
        http_scope("/echo/" + v, query=b"a=1", headers=[(b"host", b"h")]),
        http_scope("/echo/" + v, method="PUT", headers=[(b"host", b"h")]),
        http_scope("/echo/" + v + "/", root_path="", headers=[(b"host", b"g"), (b"accept-encoding", b"gzip")]),
        http_scope("/echo/x", headers=[(b"host", b"h"), (b"origin", b"http://a"), (b"accept-encoding", b"gzip")]),
        http_scope("/echo/x", method="OPTIONS", headers=[(b"origin", b"http://" + v.encode()), (b"access-control-request-method", b"GET")]),
        http_scope("/error/" + v),
        http_scope("/login", headers=[(b"cookie", b"session=bad")]),
        http_scope("/login/out", headers=[(b"cookie", session_cookie())]),
    ]
    requests = [(pool[S.pick("request%d" % i, 0, len(pool) - 1)], None) for i in range(n)]

    def make(log):
        async def error(request):
            raise Teapot(request.path_params["p"])

        async def teapot(request, exc):
            return PlainTextResponse("teapot " + exc.args[0], 418, background=BackgroundTask(log.append, exc.args[0]))

        async def login(request):
            if request.path_params.get("x"):
                request.session.clear()
            else:
                request.session["n"] = request.session.get("n", 0) + 1
            return PlainTextResponse(str(sorted(request.session.items())))

        return Starlette(
            routes=[Route("/echo/{p}", echo), Route("/error/{p}", error), Route("/login", login), Route("/login/{x}", login)],
            middleware=[STACKS["cors"](), STACKS["gzip"](), STACKS["session"](), STACKS["function"]()],
            exception_handlers={Teapot: teapot},
        )

    got = after(S, make, requests)
    S.cover(str(got.status))


ASSUMPTIONS = [
    "the application's own functions keep nothing between requests",
    "synchronous functions run in place (native replay uses real threads); the clock is fixed; zlib is modelled as in C33",
]
HARNESSES = [
    dict(name="h_routes", covers=["200", "404", "405", "websocket"], bounds="two requests with any of 5 paths, 4 methods, 3 hosts, http or websocket; every letter in the path"),
    dict(name="h_urls", covers=["200", "307"], bounds="two requests with any of 5 paths, 2 root paths, 2 hosts, 2 schemes; every letter in the path"),
    dict(name="h_stack", covers=sorted(STACKS), bounds="8 kinds of middleware, two requests with any of <= 4 values of each header the middleware looks at, and <= 3 endpoints; every letter in the body"),
    dict(name="h_errors", covers=["200", "error"], bounds="two requests, each with 8 kinds of error in one of 2 applications; every letter in the error"),
    dict(name="h_read", covers=["cookies", "params", "query", "state", "form", "json", "class", "headers", "websocket"], bounds="two requests of 9 kinds whose values the application changes, with the same value or any other letter"),
    dict(name="h_files", covers=["none", "rewrite", "same size", "same second", "delete", "create", "replace by directory", "touch", "200", "206", "404", "416", "307"], bounds="two requests for any of 5 paths with 3 ranges, GET or HEAD, with 8 changes in between; with and without HTML mode"),
    dict(name="h_longer", covers=["200", "405", "307", "418", "400"], bounds="3 (thorough 4) requests from 8; every letter in them"),
]
