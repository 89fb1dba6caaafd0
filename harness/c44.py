"""C44: websocket endpoint classes decode by declared encoding and close once."""
import json

from hlib import drive, ws_scope

from starlette.applications import Starlette
from starlette.endpoints import WebSocketEndpoint
from starlette.routing import WebSocketRoute


class Boom(Exception):
    pass


class Peer:
    def __init__(self, messages):
        self.messages = [{"type": "websocket.connect"}] + list(messages)
        self.sent = []

    async def receive(self):
        return self.messages.pop(0)

    async def send(self, message):
        self.sent.append(message)


def make(encoding, log, fail_at=None, exc=None, reply=False, fail_connect=None, close_at=None):
    class Endpoint(WebSocketEndpoint):
        async def on_connect(self, websocket):
            log.append(("connect", None))
            if fail_connect is not None:
                raise fail_connect
            await websocket.accept()

        async def on_receive(self, websocket, data):
            log.append(("receive", data))
            n = len([1 for a, b in log if a == "receive"])
            if reply:
                await websocket.send_text("r%d" % n)
            if n == close_at:
                await websocket.close(4001)
            if n == fail_at:
                raise exc

        async def on_disconnect(self, websocket, close_code):
            log.append(("disconnect", close_code))

    if encoding is not None or True:
        Endpoint.encoding = encoding
    return Endpoint


def serve(S, cls, peer):
    through = S.choice("through", ["direct", "route"])
    app = cls if through == "direct" else Starlette(routes=[WebSocketRoute("/", cls)])
    scope = ws_scope("/")

    async def go():
        if through == "direct":
            await cls(scope, peer.receive, peer.send)
        else:
            await app(scope, peer.receive, peer.send)

    try:
        drive(go())
    except Exception as e:
        return e
    return None


def both(S, i, m):
    """Servers may send both keys, one of them None."""
    if S.flag("both%d" % i):
        m["bytes" if "text" in m else "text"] = None
    return m


def disconnect(S, code):
    m = {"type": "websocket.disconnect"}
    if code is not None or S.flag("none"):
        m["code"] = code
    if S.flag("reason"):
        m["reason"] = "r"
    return m


def data_message(S, i, kind, size):
    if kind == "text":
        v = S.str("p%d" % i, 0, size)
    else:
        v = S.bytes("p%d" % i, 0, size)
    return both(S, i, {"type": "websocket.receive", kind: v}), v


def h_payloads(S):
    """Messages of any payload and kind under each encoding."""
    encoding = S.choice("encoding", ["text", "bytes", None])
    n = S.pick("n", 0, S.q(2, 3))
    log, msgs, want = [], [], []
    wrong = None
    for i in range(n):
        kind = S.choice("kind%d" % i, ["text", "bytes"])
        m, v = data_message(S, i, kind, S.q(2, 3))
        msgs.append(m)
        if wrong is None:
            if encoding is not None and encoding != kind:
                wrong = i
            else:
                want.append(v)
    code = S.int("code", 1000, 4999) if S.flag("has code") else None
    peer = Peer(msgs + [disconnect(S, code), {"type": "websocket.receive", "text": "late"}])
    error = serve(S, make(encoding, log), peer)
    S.check([a for a, b in log] == ["connect"] + ["receive"] * len(want) + ["disconnect"], "each handler as often and in the order of the messages")
    S.check(S.And(*[S.eq(b, v) for (a, b), v in zip(log[1:-1], want)]), "the decoded payloads")
    closes = [m for m in peer.sent if m["type"] == "websocket.close"]
    if wrong is None:
        S.check(error is None, "no error")
        S.check(log[-1][1] == (1000 if code is None else code), "the client's close code")
        S.check(closes == [], "not closed by the server")
        S.cover("good")
    else:
        S.check(isinstance(error, RuntimeError), "a message of the wrong kind raises")
        S.check(len(closes) == 1 and closes[0]["code"] == 1003, "and closes with 1003")
        S.check(log[-1][1] == 1011, "reported as an internal error")
        S.check(len(peer.messages) == n - wrong - 1 + 2, "nothing more is received")
        S.cover("wrong")


JSON_ALPHABET = "01-.e \n\"\\[]{},:tnu\x7f\xe9\u20ac"


def h_json(S):
    """JSON encoding: every text, and every bytes."""
    kind = S.choice("kind", ["text", "bytes"])
    size = S.q(2, 3)
    if kind == "text":
        v = S.str("p", 0, size, alphabet=JSON_ALPHABET)
        text = v
    else:
        v = S.bytes("p", 0, size, alphabet=[ord(c) for c in '01-e "[]{}\\'] + [0x7F, 0x80, 0xA9, 0xC3, 0xE2, 0xFF])
        try:
            text = v.decode("utf-8")
        except UnicodeDecodeError:
            text = None
    try:
        value = ("ok", json.loads(text)) if text is not None else ("bad", None)
    except ValueError:
        value = ("bad", None)
    log = []
    peer = Peer([both(S, 0, {"type": "websocket.receive", kind: v}), {"type": "websocket.disconnect", "code": 1001}])
    error = serve(S, make("json", log), peer)
    closes = [m for m in peer.sent if m["type"] == "websocket.close"]
    if value[0] == "ok":
        S.check(error is None and [a for a, b in log] == ["connect", "receive", "disconnect"] and closes == [], "received")
        got = log[1][1]
        S.check(type(got) is type(value[1]) if not isinstance(value[1], (int, str)) else isinstance(got, type(value[1])), "type")
        S.check(S.eq(got, value[1]), "the value")
        S.check(log[2][1] == 1001, "the client's close code")
        S.cover("value")
    else:
        S.check(isinstance(error, RuntimeError), "malformed JSON raises")
        S.check(len(closes) == 1 and closes[0]["code"] == 1003, "and closes with 1003")
        S.check(log == [("connect", None), ("disconnect", 1011)], "and is not received")
        S.cover("malformed " + kind)


def h_json_values(S):
    """Values survive."""
    value = S.choice("value", [None, True, 0, -5, "", "x", [], [1, "a", None], "\xe9\u20ac\U0001f600", {"a": {"b": [1.5]}}, {}])
    kind = S.choice("kind", ["text", "bytes"])
    text = json.dumps(value, ensure_ascii=S.flag("ascii"))
    log = []
    peer = Peer([both(S, 0, {"type": "websocket.receive", kind: text if kind == "text" else text.encode()}), {"type": "websocket.disconnect", "code": 1001}])
    error = serve(S, make("json", log), peer)
    S.check(error is None and log == [("connect", None), ("receive", value), ("disconnect", 1001)], "received")
    S.cover(kind)


def h_failures(S):
    """A failing handler ends the connection with 1011, once."""
    n = S.pick("n", 1, S.q(3, 4))
    at = S.pick("at", 1, n) if n > 1 else 1
    exc = S.choice("exc", [Boom("b"), ValueError("v"), KeyError("k")])
    log = []
    close_at = S.choice("close_at", [None, 1, 2])
    peer = Peer([{"type": "websocket.receive", "text": "m%d" % i} for i in range(n)] + [{"type": "websocket.disconnect", "code": 1001}])
    error = serve(S, make("text", log, at, exc, close_at=close_at), peer)
    S.check(error is exc, "the exception propagates")
    S.check(log == [("connect", None)] + [("receive", "m%d" % i) for i in range(at)] + [("disconnect", 1011)], "the handlers")
    S.check(len([m for m in peer.sent if m["type"] == "websocket.close"]) == (close_at is not None and close_at <= at), "closes")
    S.cover("failed")


def h_connect_fails(S):
    """A failing connect handler: nothing is received."""
    exc = Boom("b")
    log = []
    peer = Peer([{"type": "websocket.receive", "text": "m"}, {"type": "websocket.disconnect", "code": 1001}])
    error = serve(S, make("text", log, fail_connect=exc), peer)
    S.check(error is exc, "the exception propagates")
    S.check(log[0] == ("connect", None) and all(a != "receive" for a, b in log) and len(log) <= 2, "nothing is received")
    S.cover("failed")


def h_sequences(S):
    """Every sequence of client messages, legal or not."""
    n = S.q(4, 5)
    seq = [S.choice("m%d" % i, ["text", "bytes", "disconnect", "connect"]) for i in range(n)] + ["disconnect"]
    encoding = S.choice("encoding", ["text", "bytes", "json", None])
    reply = S.flag("reply")
    peer = Peer([{"text": {"type": "websocket.receive", "text": "1"}, "bytes": {"type": "websocket.receive", "bytes": b"1"}, "disconnect": {"type": "websocket.disconnect", "code": 1001}, "connect": {"type": "websocket.connect"}}[x] for x in seq])
    log = []
    error = serve(S, make(encoding, log, reply=reply), peer)
    want = [("connect", None)]
    sent = ["websocket.accept"]
    fails = False
    for x in seq:
        if x == "disconnect":
            want.append(("disconnect", 1001))
            break
        if x == "connect" or (encoding in ("text", "bytes") and encoding != x):
            want.append(("disconnect", 1011))
            fails = True
            if x != "connect":
                sent.append("websocket.close")
            break
        want.append(("receive", 1 if encoding == "json" else "1" if x == "text" else b"1"))
        if reply:
            sent.append("websocket.send")
    S.check(log == want, "the handlers")
    S.check([m["type"] for m in peer.sent] == sent, "what is sent")
    S.check(isinstance(error, RuntimeError) if fails else error is None, "errors")
    S.cover("fails" if fails else "ends")


def h_defaults(S):
    """The default handlers accept and ignore."""
    encoding = S.choice("encoding", ["text", "bytes", "json", None])

    class Endpoint(WebSocketEndpoint):
        pass

    Endpoint.encoding = encoding
    n = S.pick("n", 0, 2)
    m = {"type": "websocket.receive", "bytes": b"1"} if encoding == "bytes" else {"type": "websocket.receive", "text": "1"}
    peer = Peer([dict(m) for i in range(n)] + [{"type": "websocket.disconnect", "code": 1001}])
    error = serve(S, Endpoint, peer)
    S.check(error is None and [x["type"] for x in peer.sent] == ["websocket.accept"] and peer.messages == [], "accepted")
    S.cover("default")


def h_large(S):
    """Many messages, and a large one."""
    encoding = S.choice("encoding", ["text", "bytes", "json"])
    n = 130
    at = S.choice("at", [0, n])
    v = S.str("v", 0, 1, ranges=[("a", "z")])
    values = ["m%d" % i for i in range(n)] + ["x" * 70000]
    values.insert(at, v)
    log = []
    if encoding == "bytes":
        msgs = [{"type": "websocket.receive", "bytes": x.encode("utf-8")} for x in values]
        values = [x.encode("utf-8") for x in values]
    elif encoding == "json":
        msgs = [{"type": "websocket.receive", "text": '["' + x + '"]'} for x in values]
        values = [[x] for x in values]
    else:
        msgs = [{"type": "websocket.receive", "text": x} for x in values]
    peer = Peer(msgs + [{"type": "websocket.disconnect", "code": 1001}])
    error = serve(S, make(encoding, log, reply=True), peer)
    S.check(error is None, "no error")
    S.check(log[0] == ("connect", None) and log[-1] == ("disconnect", 1001), "connected and disconnected once")
    S.check([a for a, b in log[1:-1]] == ["receive"] * len(values), "every message once")
    S.check(S.And(*[S.eq(b, x) for (a, b), x in zip(log[1:-1], values)]), "decoded in order")
    S.check(len(peer.sent) == 1 + len(values), "replies")
    S.cover(encoding)


ASSUMPTIONS = [
    "if the connect handler itself raises, its exception propagates; whether the disconnect handler then runs is not specified",
    "JSON nested beyond the recursion limit is not considered",
]
HARNESSES = [
    dict(name="h_payloads", covers=["good", "wrong"], bounds="<= 2 (thorough 3) messages of any text or bytes of length <= 2 (3), one or both keys present, 3 encodings, every close code or none"),
    dict(name="h_json", covers=["value", "malformed text", "malformed bytes"], bounds="every text over the JSON alphabet and some other characters, every bytes over JSON and UTF-8 lead/continuation bytes, of length <= 2 (thorough 3)"),
    dict(name="h_json_values", covers=["text", "bytes"], bounds="11 values, escaped or not, as text or bytes"),
    dict(name="h_failures", covers=["failed"], bounds="each of <= 3 (thorough 4) messages fails, 3 exceptions, with the application closing before"),
    dict(name="h_connect_fails", covers=["failed"], bounds="failing connect handler"),
    dict(name="h_sequences", covers=["fails", "ends"], bounds="every sequence of 4 (thorough 5) of 4 client messages, 4 encodings"),
    dict(name="h_defaults", covers=["default"], bounds="4 encodings, <= 2 messages"),
    dict(name="h_large", covers=["text", "bytes", "json"], bounds="132 messages, one of 70000 characters, one of any <= 1 letter"),
]
