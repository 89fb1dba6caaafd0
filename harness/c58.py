"""C58: requests served at the same time do not interfere."""
import asyncio
import os
import tempfile
import time

from hlib import Channel, http_scope, run, ws_scope

from starlette.applications import Starlette
from starlette.authentication import AuthCredentials, AuthenticationBackend, AuthenticationError, SimpleUser, requires
from starlette.background import BackgroundTask
from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
from starlette.exceptions import HTTPException
from starlette.middleware import Middleware
from starlette.middleware.authentication import AuthenticationMiddleware
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.middleware.cors import CORSMiddleware
from starlette.middleware.gzip import GZipMiddleware
from starlette.middleware.sessions import SessionMiddleware
from starlette.requests import Request
from starlette.responses import FileResponse, PlainTextResponse, Response, StreamingResponse
from starlette.routing import Mount, Route, Router, WebSocketRoute
from starlette.staticfiles import StaticFiles

NOW = 1700000000


class Clock:
    def __enter__(self):
        self.real = time.time
        time.time = lambda: NOW

    def __exit__(self, *exc):
        time.time = self.real


class Client(Channel):
    """A client whose every message waits for its turn."""

    def __init__(self, turns, messages):
        super().__init__(messages)
        self.turns = turns
        self.waiting = []
        self.done = False
        self.error = None
        self.log = []

    async def turn(self):
        if self.turns:
            f = asyncio.get_running_loop().create_future()
            self.waiting.append(f)
            await f

    async def receive(self):
        await self.turn()
        if self.pos >= len(self.messages):
            await asyncio.Event().wait()  # the client stays
        return await super().receive()

    async def send(self, message):
        await self.turn()
        message = dict(message)
        if "headers" in message:
            message["headers"] = list(message["headers"])
        self.sent.append(message)

    async def serve(self, app, scope):
        try:
            await app(scope, self.receive, self.send)
        except Exception as e:
            self.error = type(e).__name__
        self.done = True


async def interleave(S, clients, app, scopes, order):
    """Serve all, one message at a time; the order is up to S where there is a choice."""
    tasks = [asyncio.ensure_future(c.serve(app, s)) for c, s in zip(clients, scopes)]
    step = 0
    while True:
        for c in clients:
            spins = 0
            while not c.waiting and not c.done:
                await asyncio.sleep(0 if spins < 100 else 0.001)
                spins += 1
                assert spins < 5000, "a request hangs"
        ready = [c for c in clients if c.waiting]
        if not ready:
            break
        c = ready[0] if len(ready) == 1 else ready[1] if order(step) else ready[0]
        if len(ready) > 1:
            step += 1
        c.waiting.pop(0).set_result(None)
        for _ in range(8):
            await asyncio.sleep(0)
    for t in tasks:
        await t


def alone(make, scope, messages):
    c = Client(False, messages)

    async def go():
        await c.serve(make(c.log), scope)

    run(go())
    return c


def compare(S, got, want):
    S.check(got.error == want.error, "the error")
    S.check(len(got.sent) == len(want.sent), "number of messages")
    for a, b in zip(got.sent, want.sent):
        S.check(sorted(a) == sorted(b), "keys of a message")
        for k in b:
            S.check(S.eq(a[k], b[k]), "value of " + k)


def together(S, make, requests, turns=None):
    """Two requests in any interleaving against each of them alone."""
    log = []
    app = make(log)
    clients = [Client(True, messages) for scope, messages in requests]
    turns = turns or 20

    def order(step):
        return S.flag("turn%d" % step) if step < turns else step % 2

    with Clock():
        run(interleave(S, clients, app, [dict(scope) for scope, messages in requests], order))
        wants = [alone(make, dict(scope), messages) for scope, messages in requests]
    for c, w in zip(clients, wants):
        compare(S, c, w)
    expected = [e for w in wants for e in w.log]
    S.check(len(log) == len(expected), "number of things done")
    rest = list(expected)
    for e in log:
        for i, x in enumerate(rest):
            if x[0] == e[0]:
                S.check(S.eq(x, e), "what was done")
                del rest[i]
                break
        else:
            S.fail("something else was done")
    return clients


def body_messages(parts):
    return [{"type": "http.request", "body": p, "more_body": i < len(parts) - 1} for i, p in enumerate(parts)]


async def echo(request):
    first = str(request.url.path) + "|" + str(request.path_params.get("p")) + "|" + request.method
    body = await request.body()
    text = first + "|" + str(request.query_params.get("q")) + "|" + request.headers.get("x-h", "-") + "|" + body.decode("latin-1") + "|" + request["root_path"]
    return PlainTextResponse(text, headers={"x-p": str(request.path_params.get("p"))})


class Class(HTTPEndpoint):
    async def get(self, request):
        return await echo(request)

    async def post(self, request):
        return await echo(request)


class Raw:
    async def __call__(self, scope, receive, send):
        response = await echo(Request(scope, receive))
        await response(scope, receive, send)


class Teapot(Exception):
    pass


ENDPOINTS = ["function", "class", "raw", "mounted", "error"]


def h_routes(S):
    """Endpoints of every kind, reached by different routes."""
    requests = []
    for i in range(2):
        where = S.choice("where%d" % i, ENDPOINTS if i == 0 or S.thorough else ENDPOINTS[:2] + ["mounted"])
        p = S.str("p%d" % i, 1, 1, ranges=[(97, 122)])
        h = S.str("h%d" % i, 1, 1, ranges=[(33, 126)])
        b = S.bytes("b%d" % i, 1, 1, ranges=[(33, 126)])
        method = ["GET", "POST"][i]
        scope = http_scope("/" + where + "/" + p, method=method, query=b"q=%d" % i, headers=[(b"host", b"h"), (b"x-h", h.encode())])
        requests.append((scope, body_messages([b, b"%d" % i])))

    async def error(request):
        await request.body()
        if request.method == "GET":
            raise Teapot(request.path_params["p"])
        raise HTTPException(499, request.path_params["p"])

    async def teapot(request, exc):
        return PlainTextResponse("teapot " + exc.args[0] + request.headers["x-h"], 418)

    def make(log):
        return Starlette(
            routes=[
                Route("/function/{p}", echo, methods=["GET", "POST"]),
                Route("/class/{p}", Class),
                Route("/raw/{p}", Raw()),
                Mount("/mounted", routes=[Mount("", routes=[Route("/{p}", echo, methods=["GET", "POST"])])]),
                Route("/error/{p}", error, methods=["GET", "POST"]),
            ],
            exception_handlers={Teapot: teapot},
        )

    clients = together(S, make, requests)
    S.cover(requests[0][0]["path"].split("/")[1])
    S.check(all(c.status is not None for c in clients), "answered")


def h_shared(S):
    """One response object, one class based application, one router for both."""
    kind = S.choice("kind", ["file", "plain", "endpoint class", "static"])
    d = tempfile.mkdtemp()
    path = os.path.join(d, "f.txt")
    other = os.path.join(d, "g.html")
    try:
        with open(path, "wb") as f:
            f.write(b"0123456789")
        with open(other, "wb") as f:
            f.write(b"<html>")

        def make(log):
            if kind == "file":

                class Small(FileResponse):
                    chunk_size = 6

                return Small(path, background=BackgroundTask(log.append, ("task",)))
            if kind == "plain":
                return PlainTextResponse("text", background=BackgroundTask(log.append, ("task",)))
            if kind == "static":
                return StaticFiles(directory=d)
            return Router(routes=[Route("/{p}", Class)])

        requests = []
        for i in range(2):
            rng = S.choice("range%d" % i, [None, b"bytes=1-8", b"bytes=2-3", b"bytes=99-"]) if kind in ("file", "static") else None
            name = S.choice("name%d" % i, ["/f.txt", "/g.html", "/none"]) if kind == "static" else "/" + S.str("p%d" % i, 1, 1, ranges=[(97, 122)]) if kind == "endpoint class" else "/"
            headers = [] if rng is None else [(b"range", rng)]
            requests.append((http_scope(name, method=S.choice("method%d" % i, ["GET", "HEAD"]), headers=headers), body_messages([b"%d" % i])))
        together(S, make, requests)
    finally:
        os.unlink(path)
        os.unlink(other)
        os.rmdir(d)
    S.cover(kind)


class Backend(AuthenticationBackend):
    async def authenticate(self, conn):
        user = conn.headers.get("x-user")
        if user is None:
            return None
        if user == "bad":
            raise AuthenticationError("bad " + conn.headers["x-h"])
        return AuthCredentials(["in"]), SimpleUser(user)




class Timing(BaseHTTPMiddleware):
    async def dispatch(self, request, call_next):
        request.state.h = request.headers["x-h"]
        response = await call_next(request)
        response.headers["x-state"] = request.state.h
        return response


STACKS = {
    "session": lambda: [Middleware(SessionMiddleware, secret_key="k")],
    "cors": lambda: [Middleware(CORSMiddleware, allow_origins=["http://a", "http://b"], allow_credentials=True, expose_headers=["x"])],
    "gzip": lambda: [Middleware(GZipMiddleware, minimum_size=3)],
    "auth": lambda: [Middleware(AuthenticationMiddleware, backend=Backend())],
    "function": lambda: [Middleware(Timing)],
}


def h_stack(S):
    """Middleware of every kind around an endpoint that streams."""
    name = S.choice("stack", sorted(STACKS))
    requests = []
    for i in range(2):
        h = S.str("h%d" % i, 1, 1, ranges=[(97, 122)])
        headers = [(b"host", b"h"), (b"x-h", h.encode())]
        path = "/"
        if name == "cors":
            origin = S.choice("origin%d" % i, [None, b"http://a", b"http://c"] if i else [None, b"http://b", b"http://c"])
            if origin is not None:
                headers.append((b"origin", origin))
            if S.flag("cookie%d" % i):
                headers.append((b"cookie", b"a=b"))
        elif name == "gzip":
            if S.flag("gzip%d" % i):
                headers.append((b"accept-encoding", b"gzip"))
            path = S.choice("path%d" % i, ["/", "/small"])
        elif name == "auth":
            user = S.choice("user%d" % i, [None, b"u%d" % i, b"bad"])
            if user is not None:
                headers.append((b"x-user", user))
            path = S.choice("path%d" % i, ["/", "/in"])
        elif name == "session":
            path = S.choice("path%d" % i, ["/", "/login"])
            cookie = S.choice("cookie%d" % i, [None, "valid", "bad"])
            if cookie is not None:
                headers.append((b"cookie", b"session=" + (session_cookie(i) if cookie == "valid" else b"x.y.z")))
        requests.append((http_scope(path, method=["GET", "POST"][i], headers=headers), body_messages([b"body%d" % i])))

    def make(log):
        async def stream(request):
            h = request.headers["x-h"]
            if name == "session":
                was = str(sorted(request.session.items()))
                await request.body()
                log.append(("session " + request.method, was, str(sorted(request.session.items()))))
            else:
                await request.body()
            user = request.user.display_name if name == "auth" else ""

            async def chunks():
                yield h.encode()
                yield ("-" + user).encode()
                yield h.encode() * 2

            return StreamingResponse(chunks(), headers={"x-user": user})

        async def small(request):
            await request.body()
            return PlainTextResponse(request.headers["x-h"])

        async def login(request):
            h = request.headers["x-h"]
            request.session["who"] = request.method
            await request.body()
            return PlainTextResponse(h + str(sorted(request.session.items())))

        @requires("in")
        async def inside(request):
            await request.body()
            return PlainTextResponse(request.user.display_name + request.headers["x-h"])

        methods = ["GET", "POST"]
        return Starlette(
            routes=[Route("/", stream, methods=methods), Route("/small", small, methods=methods), Route("/login", login, methods=methods), Route("/in", inside, methods=methods)],
            middleware=STACKS[name](),
        )

    together(S, make, requests, turns=S.q(6, 20))
    S.cover(name)


COOKIES = {}


def session_cookie(i):
    """A validly signed session."""
    if i not in COOKIES:

        async def app(scope, receive, send):
            scope["session"]["old"] = i
            await PlainTextResponse("")(scope, receive, send)

        with Clock():
            c = alone(lambda log: SessionMiddleware(app, "k"), http_scope("/"), [])
        COOKIES[i] = c.header(b"set-cookie")[0].split(b";")[0].split(b"=", 1)[1]
    return COOKIES[i]


def h_forms(S):
    """Forms of both kinds, parsed while their chunks arrive."""
    requests = []
    for i in range(2):
        kind = S.choice("kind%d" % i, ["urlencoded", "multipart"])
        v = S.bytes("v%d" % i, 1, 1, ranges=[(97, 122)])
        if kind == "urlencoded":
            ctype, parts = b"application/x-www-form-urlencoded", [b"a=" + v, b"1&b", b"=2"]
        else:
            ctype = b"multipart/form-data; boundary=B%d" % i
            parts = [b'--B%d\r\nContent-Disposition: form-data; name="a"\r\n\r\n' % i + v, b"\r\n--B%d\r\nContent-Disposition: form-da" % i, b'ta; name="f"; filename="n%d"\r\n\r\nfile%d\r\n--B%d--\r\n' % (i, i, i)]
        requests.append((http_scope("/", method="POST", headers=[(b"content-type", ctype)]), body_messages(parts)))

    def make(log):
        async def endpoint(request):
            async with request.form() as form:
                out = []
                for k, v in form.multi_items():
                    if isinstance(v, str):
                        out.append(k + "=" + v)
                    else:
                        out.append(k + ":" + v.filename + "=" + (await v.read()).decode())
                return PlainTextResponse("&".join(out))

        return Starlette(routes=[Route("/", endpoint, methods=["POST"])])

    clients = together(S, make, requests)
    for i, c in enumerate(clients):
        S.check(c.status == 200 and c.body[:2] == b"a=", "parsed")
        S.cover("form%d" % i)


def h_websockets(S):
    """Websockets of one endpoint, with a request in between."""
    encodings = [S.choice("encoding", ["text", "json", "bytes"]), None]
    requests = []
    log_names = ["/ws/a", "/ws/b"]
    for i in range(2):
        t = S.str("t%d" % i, 1, 1, ranges=[(97, 122)])
        e = encodings[0]
        m = {"text": {"text": t}, "json": {"text": '"' + t + '"'}, "bytes": {"bytes": t.encode()}}[e]
        msgs = [{"type": "websocket.connect"}, {"type": "websocket.receive", **m}, {"type": "websocket.disconnect", "code": 1000 + i}]
        requests.append((ws_scope(log_names[i]), msgs))
    if S.flag("http"):
        requests[1] = (http_scope("/h/b"), body_messages([b"1"]))
        S.cover("http")

    def make(log):
        class Echo(WebSocketEndpoint):
            encoding = encodings[0]

            async def on_connect(self, websocket):
                self.name = websocket.path_params["p"]
                await websocket.accept(headers=[(b"x-p", self.name.encode())])

            async def on_receive(self, websocket, data):
                log.append((self.name, data))
                if isinstance(data, bytes):
                    await websocket.send_bytes(data)
                elif encodings[0] == "json":
                    await websocket.send_json([self.name, websocket.path_params["p"]])
                else:
                    await websocket.send_text(self.name + data)

            async def on_disconnect(self, websocket, close_code):
                log.append((self.name + " left", close_code, websocket.path_params["p"]))

        return Starlette(routes=[WebSocketRoute("/ws/{p}", Echo), Route("/h/{p}", echo)])

    together(S, make, requests)
    S.cover(encodings[0])


ASSUMPTIONS = [
    "requests take turns at the messages they exchange with the server; what happens between two messages of one request is not interrupted (except that tasks of function middleware run on)",
    "synchronous functions run in place (native replay uses real threads)",
    "the clock is fixed; zlib is modelled as in C33",
]
HARNESSES = [
    dict(name="h_routes", covers=ENDPOINTS, bounds="two requests to endpoints of 5 kinds in every interleaving of their messages; every path parameter, header value and body byte"),
    dict(name="h_shared", covers=["file", "plain", "endpoint class", "static"], bounds="one response object, one class based endpoint or one directory for two requests in every interleaving, GET or HEAD, 4 kinds of range, 3 names"),
    dict(name="h_stack", covers=sorted(STACKS), bounds="5 kinds of middleware, two requests with different origins, cookies, encodings and users; the first 6 (thorough: all) choices of the interleaving"),
    dict(name="h_forms", covers=["form0", "form1"], bounds="two forms of either kind in 3 chunks in every interleaving; every value of one letter"),
    dict(name="h_websockets", covers=["http", "text", "json", "bytes"], bounds="two websockets, or a websocket and a request, in every interleaving; every text of one letter"),
]
