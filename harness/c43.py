"""C43: websocket typed receive/send helpers deliver the payload."""
import json

from hlib import drive, run, ws_scope

from starlette.responses import HTMLResponse, JSONResponse, PlainTextResponse, RedirectResponse, Response, StreamingResponse
from starlette.websockets import WebSocket, WebSocketDisconnect


class Peer:
    def __init__(self, messages=(), extensions=None, version="2.4"):
        self.messages = list(messages)
        self.sent = []
        self.asked = 0
        scope = ws_scope(asgi={"version": "3.0", "spec_version": version})
        if extensions is not None:
            scope["extensions"] = extensions
        self.ws = WebSocket(scope, self.receive, self.send)

    async def receive(self):
        self.asked += 1
        return self.messages.pop(0)

    async def send(self, message):
        self.sent.append(message)

    def accepted(self):
        self.messages.insert(0, {"type": "websocket.connect"})
        drive(self.ws.accept())
        self.sent.clear()
        self.asked = 0
        return self.ws


def attempt(coro):
    try:
        return drive(coro), None
    except Exception as e:
        return None, e


def data(key, value, other=False):
    m = {"type": "websocket.receive", key: value}
    if other:  # servers may send both keys, one of them None
        m["bytes" if key == "text" else "text"] = None
    return m


def gone(S, code=1000):
    m = {"type": "websocket.disconnect", "code": code}
    kind = S.choice("reason", ["none", "null", "text"])
    if kind == "null":
        m["reason"] = None
    if kind == "text":
        m["reason"] = S.str("reason text", 0, 2)
    return m


def same(S, a, b):
    """Equality of JSON values, as a formula."""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        return S.And(*[S.And(S.eq(x, y), same(S, a[x], b[y])) for x, y in zip(a, b)])
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and S.And(*[same(S, x, y) for x, y in zip(a, b)])
    return S.eq(a, b)


def h_receive(S):
    """Every text and binary payload, both forms of messages."""
    text = S.str("text", 0, S.q(3, 5), ranges=[(0, 0x10FFFF)])
    raw = S.bytes("raw", 0, S.q(3, 5))
    both = S.flag("both")
    p = Peer([data("text", text, both), data("bytes", raw, both)])
    ws = p.accepted()
    got, error = attempt(ws.receive_text())
    S.check(error is None and S.eq(got, text), "the text")
    got, error = attempt(ws.receive_bytes())
    S.check(error is None and S.eq(got, raw), "the bytes")
    S.check(p.sent == [] and p.asked == 2, "one message each")
    S.cover("both" if both else "single")


def h_send(S):
    """Every payload sent."""
    text = S.str("text", 0, S.q(3, 5), ranges=[(0, 0x10FFFF)])
    raw = S.bytes("raw", 0, S.q(3, 5))
    p = Peer()
    ws = p.accepted()
    drive(ws.send_text(text))
    drive(ws.send_bytes(raw))
    S.check(len(p.sent) == 2 and all(m["type"] == "websocket.send" for m in p.sent), "two messages")
    a, b = p.sent
    S.check(S.eq(a["text"], text) and a.get("bytes") is None, "the text")
    S.check(S.eq(b["bytes"], raw) and b.get("text") is None, "the bytes")
    code = S.int("code", 1000, 4999)
    reason = S.choice("reason", [None, "", "r"])
    drive(ws.close(code, reason))
    m = p.sent[2]
    S.check(m["type"] == "websocket.close" and m["code"] == code and m["reason"] == (reason or ""), "the close")
    S.cover("sent")


def value_of(S):
    kind = S.choice("value", ["text", "int", "list", "dict", "const", "nested"])
    if kind == "text":
        return S.str("v", 0, S.q(2, 3))
    if kind == "int":
        return S.int("v", -99, 99)
    if kind == "list":
        return [S.int("v0", 0, 9), S.str("v1", 0, 1), None]
    if kind == "dict":
        return {S.str("k", 0, 1): S.str("v", 0, 1)}
    if kind == "nested":
        return {"a": [{"b": [True, S.str("v", 0, 1)]}, []], "c": {}}
    return S.choice("const", [None, True, False, 0, "", [], {}])


def h_json_send(S):
    """JSON values are sent as their compact text, in either mode, and received back."""
    value = value_of(S)
    mode = S.choice("mode", ["text", "binary", None])
    p = Peer()
    ws = p.accepted()
    drive(ws.send_json(value) if mode is None else ws.send_json(value, mode=mode))
    S.check(len(p.sent) == 1 and p.sent[0]["type"] == "websocket.send", "one message")
    m = p.sent[0]
    key = "bytes" if mode == "binary" else "text"
    S.check(m.get("text" if key == "bytes" else "bytes") is None, "in the requested mode")
    text = m[key].decode("utf-8") if key == "bytes" else m[key]
    S.check(same(S, json.loads(text), value), "the value")
    q = Peer([data(key, m[key], S.flag("both"))])
    ws = q.accepted()
    got, error = attempt(ws.receive_json() if mode is None else ws.receive_json(mode=mode))
    S.check(error is None and same(S, got, value), "received back")
    S.cover(key)


def h_json_receive(S):
    """Any text is received as what json.loads makes of it."""
    mode = S.choice("mode", ["text", "binary"])
    text = S.str("text", 0, S.q(2, 3), alphabet="0123456789-.eE+ \t\n\"\\[]{},:tfnua\x00\x7f\xe9\u20ac")
    p = Peer([data("text", text) if mode == "text" else data("bytes", text.encode("utf-8"))])
    ws = p.accepted()
    got, error = attempt(ws.receive_json(mode=mode))
    try:
        want = json.loads(text)
    except ValueError:
        S.check(isinstance(error, ValueError), "malformed JSON raises")
        S.cover("malformed")
    else:
        S.check(error is None and same(S, got, want), "the value")
        S.cover("value")


def h_mode(S):
    """Other modes are refused before anything is received or sent."""
    mode = S.str("mode", 0, S.q(6, 8))
    S.assume(S.And(mode != "text", mode != "binary"))
    p = Peer([data("text", "1")])
    ws = p.accepted()
    got, error = attempt(ws.receive_json(mode=mode))
    S.check(isinstance(error, RuntimeError) and p.asked == 0, "receive_json")
    got, error = attempt(ws.send_json(1, mode=mode))
    S.check(isinstance(error, RuntimeError) and p.sent == [], "send_json")
    S.cover("refused")


def h_iterate(S):
    """Iteration yields every payload until the disconnect and stops."""
    how = S.choice("how", ["text", "bytes", "json"])
    n = S.pick("n", 0, S.q(3, 4))
    both = S.flag("both")
    payloads = []
    msgs = []
    for i in range(n):
        if how == "bytes":
            v = S.bytes("p%d" % i, 0, 2)
            msgs.append(data("bytes", v, both))
        elif how == "text":
            v = S.str("p%d" % i, 0, 2)
            msgs.append(data("text", v, both))
        else:
            v = S.choice("p%d" % i, [0, "", None, [], {"a": 1}])
            msgs.append(data("text", json.dumps(v), both))
        payloads.append(v)
    p = Peer(msgs + [gone(S, S.int("code", 1000, 4999)), data("text", "late"), data("bytes", b"late")])
    ws = p.accepted()
    got = []

    async def go():
        async for x in {"text": ws.iter_text, "bytes": ws.iter_bytes, "json": ws.iter_json}[how]():
            got.append(x)

    _, error = attempt(go())
    S.check(error is None and len(got) == n and S.And(*[same(S, a, b) if how == "json" else S.eq(a, b) for a, b in zip(got, payloads)]), "every payload in order")
    S.check(p.asked == n + 1, "and stops at the disconnect")
    _, error = attempt(go())
    S.check(isinstance(error, RuntimeError) and p.asked == n + 1, "not again")
    S.cover(how)


def h_iterate_malformed(S):
    """A message that is not JSON ends the iteration with an error, not silently."""
    text = S.str("text", 0, S.q(2, 3), alphabet="01- \"[]{}ntx\\\xe9")
    n = S.pick("n", 0, 2)
    p = Peer([data("text", str(i)) for i in range(n)] + [data("text", text), data("text", "7"), gone(S)])
    ws = p.accepted()
    got = []

    async def go():
        async for x in ws.iter_json():
            got.append(x)

    _, error = attempt(go())
    try:
        want = json.loads(text)
    except ValueError:
        S.check(isinstance(error, ValueError) and got == list(range(n)), "the error is reported")
        S.cover("malformed")
    else:
        S.check(error is None and len(got) == n + 2 and got[:n] == list(range(n)) and got[n + 1] == 7 and same(S, got[n], want), "every value")
        S.cover("value")


def helper(ws, name, value=None):
    if name.startswith("iter"):

        async def go():
            async for _ in getattr(ws, name)():
                return

        return go()
    if name.startswith("send"):
        return getattr(ws, name)({"send_text": "x", "send_bytes": b"x", "send_json": 1}[name])
    return getattr(ws, name)()


RECEIVERS = ["receive_text", "receive_bytes", "receive_json", "iter_text", "iter_bytes", "iter_json"]
SENDERS = ["send_text", "send_bytes", "send_json"]


def h_misuse(S):
    """Helpers before accepting, after a disconnect and after a close."""
    when = S.choice("when", ["new", "connected", "disconnected", "closed", "refused", "denied"])
    name = S.choice("helper", RECEIVERS + SENDERS)
    if when == "disconnected" and name in SENDERS:
        return
    p = Peer([{"type": "websocket.connect"}, {"type": "websocket.disconnect", "code": 1001}, data("text", "1"), data("bytes", b"1")], {"websocket.http.response": {}})
    ws = p.ws
    if when != "new":
        drive(ws.receive())
    if when in ("disconnected", "closed"):
        drive(ws.accept())
    if when == "disconnected":
        attempt(ws.receive_text())
    if when in ("closed", "refused"):
        drive(ws.close())
    if when == "denied":
        drive(ws.send_denial_response(Response()))
    asked, sent = p.asked, len(p.sent)
    got, error = attempt(helper(ws, name))
    S.check(isinstance(error, RuntimeError), "an error")
    S.check(p.asked == asked and len(p.sent) == sent, "without receiving or sending")
    S.cover(when)


def h_disconnect(S):
    """The disconnect's code and reason are reported."""
    code = S.int("code", 1000, 4999)
    m = gone(S, code)
    p = Peer([m])
    ws = p.accepted()
    name = S.choice("helper", RECEIVERS[:3])
    got, error = attempt(helper(ws, name))
    S.check(isinstance(error, WebSocketDisconnect), "a disconnect")
    S.check(error.code == code and S.eq(error.reason, m.get("reason") or ""), "code and reason")
    S.cover(name)


def h_denial(S):
    """Denial responses."""
    kind = S.choice("kind", ["plain", "html", "json", "redirect", "empty", "stream", "astream"])
    status = S.int("status", 400, 599)
    text = S.str("text", 0, 2)
    value = S.str("header", 0, 2, ranges=[(0x20, 0x7E)])
    version = S.choice("version", ["2.3", "2.4"])
    extensions = S.choice("extensions", [None, {}, {"websocket.http.response": {}}, {"http.response.push": {}}])
    connected = S.flag("connected")
    headers = {"x-a": value}
    want = text.encode("utf-8")
    if kind == "plain":
        r = PlainTextResponse(text, status_code=status, headers=headers)
    elif kind == "html":
        r = HTMLResponse(text, status_code=status, headers=headers)
    elif kind == "json":
        r = JSONResponse([], status_code=status, headers=headers)
        want = b"[]"
    elif kind == "redirect":
        r = RedirectResponse("/x", status_code=status, headers=headers)
        want = b""
    elif kind == "empty":
        r = Response(status_code=status, headers=headers)
        want = b""
    elif kind == "stream":
        r = StreamingResponse([text, "z"], status_code=status, headers=headers)
        want = want + b"z"
    else:

        async def chunks():
            yield text
            yield b"z"

        r = StreamingResponse(chunks(), status_code=status, headers=headers)
        want = want + b"z"
    expected_headers = [tuple(h) for h in r.raw_headers]
    p = Peer([{"type": "websocket.connect"}], extensions, version)
    outcome = []

    async def go():
        if connected:
            await p.ws.receive()
        try:
            await p.ws.send_denial_response(r)
            outcome.append("ok")
        except RuntimeError:
            outcome.append("refused")
        try:
            await p.ws.send({"type": "websocket.close"})
            outcome.append("open")
        except RuntimeError:
            outcome.append("closed")

    async def receive():
        import asyncio

        p.asked += 1
        if p.messages:
            return p.messages.pop(0)
        await asyncio.Event().wait()

    p.ws._receive = receive
    run(go())
    if extensions is None or "websocket.http.response" not in extensions:
        S.check(outcome == ["refused", "open"] and [m["type"] for m in p.sent] == ["websocket.close"], "refused without the extension")
        S.cover("unsupported")
        return
    S.check(outcome == ["ok", "closed"], "sent, and nothing afterwards")
    start, bodies = p.sent[0], p.sent[1:]
    S.check(start["type"] == "websocket.http.response.start" and len(bodies) >= 1 and all(m["type"] == "websocket.http.response.body" for m in bodies), "through the extension")
    S.check(start["status"] == status, "status")
    S.check(S.eq([tuple(h) for h in start["headers"]], expected_headers), "headers")
    S.check([bool(m.get("more_body", False)) for m in bodies] == [True] * (len(bodies) - 1) + [False], "completed")
    body = b""
    for m in bodies:
        body = body + m.get("body", b"")
    S.check(S.eq(body, want), "body")
    S.cover(kind)


def h_large(S):
    """Large payloads and many messages."""
    text = "t" * 70000 + S.str("text", 0, 1) + "u" * 5
    raw = b"r" * 1100000 + S.bytes("raw", 0, 1)
    many = [data("text", "m%d" % i) for i in range(130)]
    p = Peer(many + [data("text", text), data("bytes", raw)])
    ws = p.accepted()
    for i in range(130):
        S.check(drive(ws.receive_text()) == "m%d" % i, "messages in order")
    S.check(S.eq(drive(ws.receive_text()), text), "the text")
    S.check(S.eq(drive(ws.receive_bytes()), raw), "the bytes")
    drive(ws.send_text(text))
    drive(ws.send_bytes(raw))
    value = {"k%d" % i: [i] for i in range(130)}
    value["t"] = text[70000:]
    drive(ws.send_json(value))
    S.check(len(p.sent) == 3 and S.eq(p.sent[0]["text"], text) and S.eq(p.sent[1]["bytes"], raw), "sent as they are")
    S.check(same(S, json.loads(p.sent[2]["text"]), value), "the value")
    S.cover("large")


ASSUMPTIONS = [
    "messages carry the kind of payload the helper asks for (servers may add the other key with value None)",
    "sending after the client's disconnect is left to the server's send, which fails (C42)",
    "denial responses of FileResponse are not encoded here",
]
HARNESSES = [
    dict(name="h_receive", covers=["both", "single"], bounds="every text and bytes of length <= 3 (thorough 5), one or both keys in the message"),
    dict(name="h_send", covers=["sent"], bounds="every text and bytes of length <= 3 (thorough 5), every close code 1000..4999"),
    dict(name="h_json_send", covers=["text", "bytes"], bounds="strings of length <= 2 (thorough 3), integers -99..99, lists and dicts with symbolic leaves, constants; 3 modes"),
    dict(name="h_json_receive", covers=["malformed", "value"], bounds="every text of length <= 2 (thorough 3) over the JSON alphabet and some other characters, 2 modes"),
    dict(name="h_mode", covers=["refused"], bounds="every other mode of length <= 6 (thorough 8)"),
    dict(name="h_iterate", covers=["text", "bytes", "json"], bounds="<= 3 (thorough 4) messages of any payload of length <= 2, every code; twice"),
    dict(name="h_iterate_malformed", covers=["malformed", "value"], bounds="every text of length <= 2 (thorough 3) over a JSON alphabet after 0..2 good messages and before another"),
    dict(name="h_misuse", covers=["new", "connected", "disconnected", "closed", "refused", "denied"], bounds="9 helpers in 6 states"),
    dict(name="h_disconnect", covers=RECEIVERS[:3], bounds="every code, reason absent, None or any text of <= 2 characters"),
    dict(name="h_denial", covers=["unsupported", "plain", "html", "json", "redirect", "empty", "stream", "astream"], bounds="7 kinds of response, every status 400..599, text and header value of <= 2 characters, 2 spec versions, 4 extension tables"),
    dict(name="h_large", covers=["large"], bounds="text of 70000 and bytes of 1100000 around any character; 130 messages; a JSON object of 131 keys"),
]
