"""C49: the test client reports what the application sent."""
import json
from urllib.parse import quote

import httpx
from httpx._urlparse import ParseResult

from starlette.applications import Starlette
from starlette.responses import PlainTextResponse
from starlette.routing import Route, WebSocketRoute
from starlette.testclient import TestClient
from starlette.websockets import WebSocket, WebSocketDisconnect


class Boom(Exception):
    pass


def outcome(f):
    try:
        return "ok", f()
    except BaseException as e:
        if not isinstance(e, (Exception, BaseExceptionGroup)):
            raise
        return "exc", e


def response_messages(S, n, size):
    status = S.int("status", 200, 599)
    focus = S.choice("focus", ["headers", "rest"]) if n == 1 else "rest"
    names = [b"x-a", b"X-B", b"x-a"][: S.pick("headers", 0, 3)] if focus == "headers" else [b"x-a"]
    headers = [(name, S.bytes("value%d" % i, 0, 1) if focus == "headers" else b"v") for i, name in enumerate(names)]
    bodies = [S.bytes("body%d" % i, 0, size) for i in range(n)]
    messages = [{"type": "http.response.start", "status": status, "headers": headers}]
    if focus == "rest" and S.flag("no headers"):
        del messages[0]["headers"]
        headers = []
    for b in bodies:
        messages.append({"type": "http.response.body", "body": b, "more_body": True})
    if n and S.flag("last chunk"):
        del messages[-1]["more_body"]
    else:
        messages.append({"type": "http.response.body"})
    return focus, status, headers, bodies, messages


def joined(chunks):
    out = b""
    for c in chunks:
        out = out + c
    return out


def h_response(S):
    """Every status, header value and body, in any chunking."""
    n = S.pick("n", 0, S.q(2, 3))
    focus, status, headers, bodies, messages = response_messages(S, n, S.q(1, 2))
    method = S.choice("method", ["GET", "HEAD", "POST"]) if focus == "rest" else "GET"
    raises = focus == "rest" and S.flag("raises")
    debug = focus == "rest" and S.flag("debug")
    info = {"template": object(), "context": {"a": 1}}

    async def app(scope, receive, send):
        if debug:
            await send({"type": "http.response.debug", "info": info})
        for m in messages:
            await send(m)

    r = TestClient(app, raise_server_exceptions=raises).request(method, "/x", follow_redirects=False)
    S.check(S.eq(r.status_code, status), "status")
    S.check(S.eq([(k.lower(), v) for k, v in r.headers.raw], [(k.lower(), v) for k, v in headers]), "headers")
    S.check(S.eq(r.content, b"" if method == "HEAD" else joined(bodies)), "body")
    if debug:
        S.check(r.template is info["template"] and r.context is info["context"], "template")
    S.cover("empty" if len(r.content) == 0 else "body")


def h_failures(S):
    """An application that fails, or never answers, at any point."""
    n = S.pick("n", 0, 2)
    raises = S.flag("raises")
    kind = S.choice("kind", ["exception", "returns"])
    at = S.pick("at", 0, n + 2)
    bodies = [S.bytes("body%d" % i, 0, 1) for i in range(n)]
    messages = [{"type": "http.response.start", "status": 201, "headers": [(b"x", b"y")]}]
    messages += [{"type": "http.response.body", "body": b, "more_body": True} for b in bodies]
    messages += [{"type": "http.response.body", "body": b""}]
    boom = Boom()

    async def app(scope, receive, send):
        for m in messages[:at]:
            await send(m)
        if kind == "exception":
            raise boom

    got, r = outcome(lambda: TestClient(app, raise_server_exceptions=raises).get("/"))
    if raises and kind == "exception":
        S.check(got == "exc" and r is boom, "the exception is raised")
        S.cover("raised")
    elif raises and at == 0:
        S.check(got == "exc" and isinstance(r, AssertionError), "an error")
        S.cover("no response")
    elif at == 0:
        S.check(got == "ok" and r.status_code == 500 and r.content == b"", "a server error")
        S.cover("server error")
    else:
        S.check(got == "ok" and r.status_code == 201 and r.headers.raw == [(b"x", b"y")], "what was sent")
        S.check(S.eq(r.content, joined(bodies[: at - 1])), "the body that was sent")
        S.cover("response")


def h_illegal(S):
    """Messages out of order are reported."""
    messages = [
        {"type": "http.response.start", "status": 200, "headers": []},
        {"type": "http.response.body", "body": b"a", "more_body": True},
        {"type": "http.response.body", "body": b"b"},
    ]
    n = S.pick("n", 1, S.q(4, 5))
    order = [S.pick("m%d" % i, 0, 2) for i in range(n)]
    legal = 0
    state = "new"
    for i, k in enumerate(order):
        if (state, k) == ("new", 0):
            state = "started"
        elif state == "started" and k:
            state = "started" if k == 1 else "done"
        else:
            break
        legal = i + 1

    async def app(scope, receive, send):
        for k in order:
            await send(messages[k])

    got, r = outcome(lambda: TestClient(app).get("/"))
    if legal == n:
        S.check(got == "ok" and r.content == b"".join(messages[k]["body"] for k in order[1:]), "accepted")
        S.cover("accepted")
    else:
        S.check(got == "exc" and isinstance(r, AssertionError), "refused")
        S.cover("refused")


def make_url(scheme, host, port, path, query):
    url = httpx.URL(scheme + "://x/")
    url._uri_reference = ParseResult(scheme, "", host, port, path, query, None)
    return url


HOSTS = [("testserver", b"testserver"), ("h.example", b"h.example"), ("::1", b"[::1]")]


def h_request(S):
    """What the application receives is the request."""
    focus = S.choice("focus", ["path", "query", "body", "host"])
    path = S.str("path", 0, S.q(1, 2), ranges=[(0, 46), (48, 0x2FF)]) if focus == "path" else "p q"
    raw = quote("/" + path)
    query = "a=%20b"
    if focus == "query":
        query = S.choice("query", [None, ""]) if S.flag("plain") else S.str("query", 1, S.q(2, 3), ranges=[(33, 34), (36, 126)])
    method = "POST" if focus == "body" else "GET"
    body = S.bytes("body", 0, 2) if focus == "body" else b""
    host, netloc = S.choice("host", HOSTS) if focus == "host" else HOSTS[0]
    scheme = S.choice("scheme", ["http", "https"]) if focus == "host" else "http"
    port = S.choice("port", [None, 81]) if focus == "host" else None
    value = S.bytes("value", 0, 1) if focus == "body" else b"1"
    root = S.choice("root", ["", "/root"])
    seen = []

    async def app(scope, receive, send):
        seen.append(scope)
        seen.append(await receive())
        await send({"type": "http.response.start", "status": 200, "headers": []})
        await send({"type": "http.response.body", "body": b""})
        seen.append(await receive())

    client = TestClient(app, root_path=root, client=("me", 5))
    url = make_url(scheme, host, port, raw, query)
    headers = [(b"X-One", value), (b"x-two", b"2"), (b"x-one", b"3")]
    r = client.send(httpx.Request(method, url, headers=headers, content=body if method == "POST" else None))
    scope = seen[0]
    S.check(r.status_code == 200 and scope["type"] == "http" and scope["method"] == method and scope["scheme"] == scheme, "method and scheme")
    S.check(S.eq(scope["path"], "/" + path), "path")
    S.check(S.eq(scope["raw_path"], raw.encode("ascii")), "raw path")
    S.check(S.eq(scope["query_string"], (query or "").encode("ascii")), "query")
    default = 80 if scheme == "http" else 443
    S.check(list(scope["server"]) == [host, port or default] and scope["client"] == ("me", 5) and scope["root_path"] == root, "server, client and root path")
    got = [(k, v) for k, v in scope["headers"] if k in (b"x-one", b"x-two", b"host")]
    hosts = [v for k, v in got if k == b"host"]
    S.check(hosts == [netloc + (b":81" if port else b"")], "host")
    S.check(S.eq([h for h in got if h[0] != b"host"], [(b"x-one", value), (b"x-two", b"2"), (b"x-one", b"3")]), "headers")
    S.check(seen[1]["type"] == "http.request" and not seen[1].get("more_body", False) and S.eq(seen[1]["body"], body), "body")
    S.check(seen[2] == {"type": "http.disconnect"}, "the end of the response")
    S.cover(focus)


def client_send(S, session, kind, i):
    """Sends one message; returns what the application should get."""
    if kind == "text":
        t = S.str("text%d" % i, 0, 1)
        session.send_text(t)
        return {"type": "websocket.receive", "text": t}
    if kind == "bytes":
        b = S.bytes("bytes%d" % i, 0, 1)
        session.send_bytes(b)
        return {"type": "websocket.receive", "bytes": b}
    data = {"k": [1, "x", None]}
    if kind == "json":
        session.send_json(data)
        return {"type": "websocket.receive", "text": json.dumps(data, separators=(",", ":"))}
    session.send_json(data, mode="binary")
    return {"type": "websocket.receive", "bytes": json.dumps(data, separators=(",", ":")).encode()}


def same(S, a, b):
    return S.And(sorted(a) == sorted(b), *[S.eq(a[k], b[k]) for k in b if k in a])


def h_websocket(S):
    """Messages in both directions, in order and unchanged."""
    n = S.pick("n", 0, S.q(1, 2))
    kinds = [S.choice("kind%d" % i, ["text", "bytes", "json", "binary json"]) for i in range(n)]
    back = [S.choice("back%d" % i, ["text", "bytes", "json", "raw"]) for i in range(S.pick("m", 0, S.q(1, 2)))]
    early = S.flag("early")
    close = S.choice("close", ["exit", "explicit"])
    code = S.int("code", 1000, 4999)
    reason = S.str("reason", 0, 1)
    path = S.choice("path", ["/ws", "/w%2520s?q=%3F"])
    accept = {"type": "websocket.accept", "subprotocol": S.choice("subprotocol", [None, "p2"]), "headers": [(b"x", S.bytes("value", 0, 1))]}
    sends = []
    for i, k in enumerate(back):
        if k == "bytes":
            sends.append({"type": "websocket.send", "bytes": S.bytes("out%d" % i, 0, 1)})
        elif k == "json":
            sends.append({"type": "websocket.send", "text": '{"a": [1, "%d"]}' % i})
        else:
            sends.append({"type": "websocket.send", "text": S.str("out%d" % i, 0, 1)})
    got, scopes = [], []

    async def app(scope, receive, send):
        scopes.append(scope)
        got.append(await receive())
        await send(accept)
        if early:
            for m in sends:
                await send(m)
        for _ in range(n):
            got.append(await receive())
        if not early:
            for m in sends:
                await send(m)
        got.append(await receive())

    want = [{"type": "websocket.connect"}]
    with TestClient(app).websocket_connect(path, subprotocols=["p1", "p2"]) as session:
        S.check(session.accepted_subprotocol == accept["subprotocol"] and S.eq(session.extra_headers, accept["headers"]), "acceptance")
        for i, k in enumerate(kinds):
            want.append(client_send(S, session, k, i))
        for i, k in enumerate(back):
            if k == "raw":
                S.check(same(S, session.receive(), sends[i]), "a message")
            elif k == "text":
                S.check(S.eq(session.receive_text(), sends[i]["text"]), "a text")
            elif k == "bytes":
                S.check(S.eq(session.receive_bytes(), sends[i]["bytes"]), "bytes")
            else:
                S.check(session.receive_json() == {"a": [1, "%d" % i]}, "JSON")
        if close == "explicit":
            session.close(code, reason)
            want.append({"type": "websocket.disconnect", "code": code, "reason": reason})
    if close == "exit":
        S.check(got[-1]["type"] == "websocket.disconnect" and got[-1]["code"] == 1000, "leaving disconnects")
        got.pop()
    S.check(len(got) == len(want) and S.And(True, *[same(S, a, b) for a, b in zip(got, want)]), "what the application receives")
    scope = scopes[0]
    S.check(scope["type"] == "websocket" and scope["scheme"] == "ws" and scope["path"] == ("/ws" if path == "/ws" else "/w%20s"), "path")
    S.check(scope["query_string"] == (b"" if path == "/ws" else b"q=%3F") and scope["subprotocols"] == ["p1", "p2"], "query and subprotocols")
    S.cover(close)


def h_websocket_close(S):
    """The application refuses, closes or fails."""
    accepted = S.flag("accepted")
    how = S.choice("how", ["close", "denial", "exception"]) if not accepted else S.choice("ends", ["close", "exception"])
    code = S.int("code", 1000, 4999)
    reason = S.str("reason", 0, 1)
    bare = S.flag("bare")
    status = S.int("status", 400, 599)
    value = S.bytes("value", 0, 1)
    bodies = [S.bytes("body%d" % i, 0, 1) for i in range(S.pick("bodies", 1, 2))]
    boom = Boom()

    async def app(scope, receive, send):
        await receive()
        if accepted:
            await send({"type": "websocket.accept"})
        if how == "close":
            await send({"type": "websocket.close"} if bare else {"type": "websocket.close", "code": code, "reason": reason})
        elif how == "denial":
            await send({"type": "websocket.http.response.start", "status": status, "headers": [(b"x", value)]})
            for i, b in enumerate(bodies):
                await send({"type": "websocket.http.response.body", "body": b, "more_body": i < len(bodies) - 1})
        else:
            raise boom

    def go():
        with TestClient(app).websocket_connect("/") as session:
            if not accepted:
                return "connected"
            try:
                session.receive_text()
            except WebSocketDisconnect as e:
                return e
            return "received"

    got, e = outcome(go)
    if how == "exception":
        S.check(got == "exc" and e is boom, "the exception is raised")
        S.cover("exception")
        return
    S.check(got == ("ok" if accepted else "exc") and isinstance(e, WebSocketDisconnect), "a disconnect")
    if how == "denial":
        S.check(S.And(S.eq(e.status_code, status), S.eq(e.content, joined(bodies))), "the response")
        S.check(S.eq([h for h in e.headers.raw if h[0] == b"x"], [(b"x", value)]), "its headers")
        S.cover("denial")
        return
    S.check(S.And(S.eq(e.code, 1000 if bare else code), S.eq(e.reason, "" if bare else reason)), "code and reason")
    S.cover("close")


def h_shared_headers(S):
    """Headers given for several connections stay as they are."""
    first = S.choice("first", [["a"], None, ["b", "c"]])
    second = S.choice("second", [["d"], None, ["a"]])
    kind = S.choice("kind", ["dict", "none", "list"])
    headers = {"dict": {"x-a": "1"}, "none": None, "list": [("x-a", "1"), ("x-a", "2")]}[kind]
    scopes = []

    async def app(scope, receive, send):
        scopes.append(scope)
        if scope["type"] == "http":
            await send({"type": "http.response.start", "status": 200, "headers": []})
            await send({"type": "http.response.body"})
            return
        await receive()
        await send({"type": "websocket.accept"})
        await receive()

    client = TestClient(app)
    for subprotocols in (first, second):
        with client.websocket_connect("/", subprotocols=subprotocols, headers=headers):
            pass
        S.check(scopes[-1]["subprotocols"] == (subprotocols or []), "the subprotocols of this connection")
    client.get("/", headers=headers)
    S.check([v for k, v in scopes[-1]["headers"] if k == b"connection"] == [b"keep-alive"], "a plain request afterwards")
    S.check([v for k, v in scopes[-1]["headers"] if k == b"x-a"] == {"dict": [b"1"], "none": [], "list": [b"1", b"2"]}[kind], "the given headers")
    S.cover(kind)


def h_lifespan(S):
    """Startup before, shutdown after, their failures and the state."""
    failure = S.choice("failure", ["none", "startup raises", "startup failed", "shutdown raises", "shutdown failed"])
    number = S.int("number", 0, 9)
    log = []
    boom = Boom()

    async def app(scope, receive, send):
        if scope["type"] == "http":
            log.append(("request", scope["state"]["n"], scope["state"].get("own")))
            scope["state"]["own"] = 1
            await send({"type": "http.response.start", "status": 200, "headers": []})
            await send({"type": "http.response.body"})
            return
        S.check((await receive())["type"] == "lifespan.startup", "startup message")
        scope["state"]["n"] = number
        log.append("startup")
        if failure == "startup failed":
            await send({"type": "lifespan.startup.failed"})
        if failure.startswith("startup"):
            raise boom
        await send({"type": "lifespan.startup.complete"})
        S.check((await receive())["type"] == "lifespan.shutdown", "shutdown message")
        log.append("shutdown")
        if failure == "shutdown failed":
            await send({"type": "lifespan.shutdown.failed"})
        if failure.startswith("shutdown"):
            raise boom
        await send({"type": "lifespan.shutdown.complete"})

    def go():
        with TestClient(app) as client:
            for _ in range(2):
                client.get("/")
            log.append("leaving")

    got, e = outcome(go)
    if failure == "none":
        S.check(got == "ok", "outcome")
    else:
        S.check(got == "exc" and e is boom, "the failure is raised")
    if failure.startswith("startup"):
        S.check(log == ["startup"], "nothing runs after a failed startup")
    else:
        S.check(log[0] == "startup" and log[3:] == ["leaving", "shutdown"], "order")
        S.check(S.And(*[S.And(S.eq(x[1], number), x[2] is None) for x in log[1:3]]), "each request gets its own copy of the state")
    S.cover(failure)


def h_application(S):
    """A whole application: responses, unhandled errors, websockets."""
    raises = S.flag("raises")
    body = S.str("body", 0, 2)
    text = S.str("text", 0, 1)
    boom = Boom()

    async def plain(request):
        return PlainTextResponse(body + request.path_params["p"])

    async def fails(request):
        raise boom

    async def socket(websocket):
        await websocket.accept()
        await websocket.send_text(await websocket.receive_text())
        await websocket.close(3000, "bye")

    app = Starlette(routes=[Route("/p/{p:path}", plain), Route("/f", fails), WebSocketRoute("/w", socket)])
    with TestClient(app, raise_server_exceptions=raises) as client:
        r = client.get("/p/%2541/b%20c")
        S.check(S.eq(r.content, (body + "%41/b c").encode("utf-8")), "the parameter and the body")
        got, r = outcome(lambda: client.get("/f"))
        S.check(r is boom if raises else r.status_code == 500, "errors")
        S.check(client.get("/none").status_code == 404, "not found")
        with client.websocket_connect("/w") as session:
            session.send_text(text)
            S.check(S.eq(session.receive_text(), text), "echo")
            got, e = outcome(session.receive_text)
            S.check(isinstance(e, WebSocketDisconnect) and e.code == 3000 and e.reason == "bye", "close")
    S.cover("done")


ASSUMPTIONS = [
    "the blocking portal is an event loop in the calling thread that runs while the client waits (replays use the real one, in another thread)",
    "httpx is executed from its source; URLs are built from their parsed parts; reason phrases (used for logging only) are not modelled",
    "header names are fixed; no content-encoding, cookies or redirects (httpx's own features)",
]
HARNESSES = [
    dict(name="h_response", covers=["empty", "body"], bounds="any status 200..599; 0-3 headers with any value of <= 1 byte, or <= 2 (thorough 3) chunks of any bytes of length <= 1 (2), optional fields, GET, HEAD, POST"),
    dict(name="h_failures", covers=["raised", "no response", "server error", "response"], bounds="failure or return after every message of responses of <= 2 chunks, exceptions raised or not"),
    dict(name="h_illegal", covers=["accepted", "refused"], bounds="every sequence of 1-4 (5) of the messages start, chunk, final chunk"),
    dict(name="h_request", covers=["path", "query", "body", "host"], bounds="one aspect at a time: every path of <= 1 (2) characters up to U+02FF; query of <= 2 (3) characters; body of <= 2 bytes and header value of <= 1 byte; 3 hosts (IPv6), http(s), port; root path"),
    dict(name="h_websocket", covers=["exit", "explicit"], bounds="<= 1 (2) messages each way of 4 kinds with any text or bytes of length <= 1, any close code and reason of length <= 1, subprotocols, acceptance headers"),
    dict(name="h_websocket_close", covers=["close", "denial", "exception"], bounds="before or after acceptance; any close code and reason of <= 1 character; denial with any status, header value of <= 1 byte, <= 2 chunks of <= 1 byte; exception"),
    dict(name="h_shared_headers", covers=["dict", "none", "list"], bounds="two connections and a request with the same headers; 3 x 3 subprotocol lists"),
    dict(name="h_lifespan", covers=["none", "startup raises", "startup failed", "shutdown raises", "shutdown failed"], bounds="5 outcomes; any state value"),
    dict(name="h_application", covers=["done"], bounds="an application of three routes, any body of <= 2 and text of <= 1 characters"),
]
