"""C42: websockets refuse illegal message sequences."""
from hlib import drive, ws_scope

from starlette.websockets import WebSocket, WebSocketDisconnect, WebSocketState

RECEIVED = ["websocket.connect", "websocket.receive", "websocket.disconnect"]
SENT = ["websocket.accept", "websocket.send", "websocket.close", "websocket.http.response.start", "websocket.http.response.body"]


class Boom(Exception):
    pass


class Server:
    """The server's side: records what is forwarded, may fail."""

    def __init__(self):
        self.incoming = None
        self.asked = 0
        self.forwarded = []
        self.failure = None

    async def receive(self):
        self.asked += 1
        return self.incoming

    async def send(self, message):
        self.forwarded.append(message)
        if self.failure is not None:
            raise self.failure


class Model:
    """The legal sequences."""

    def __init__(self):
        self.client = "new"
        self.app = "new"

    def receive(self, typ):
        """What becomes of a receive() when the server delivers this type."""
        if self.client == "gone":
            return "refused"
        if self.client == "new":
            if typ == "websocket.connect":
                self.client = "open"
                return "delivered"
            return "error"
        if typ == "websocket.receive":
            return "delivered"
        if typ == "websocket.disconnect":
            self.client = "gone"
            return "delivered"
        return "error"

    def send(self, typ, more):
        if self.app == "new":
            if typ == "websocket.accept":
                self.app = "open"
            elif typ == "websocket.close":
                self.app = "closed"
            elif typ == "websocket.http.response.start":
                self.app = "response"
            else:
                return "refused"
            return "forwarded"
        if self.app == "open":
            if typ == "websocket.close":
                self.app = "closed"
            elif typ != "websocket.send":
                return "refused"
            return "forwarded"
        if self.app == "response":
            if typ != "websocket.http.response.body":
                return "refused"
            if not more:
                self.app = "closed"
            return "forwarded"
        return "refused"


def attempt(coro):
    """(result, exception)"""
    try:
        return drive(coro), None
    except Exception as e:
        return None, e


def do_receive(S, ws, server, model, typ):
    server.incoming = {"type": typ, "text": "t", "code": 1001, "reason": "r"}
    asked = server.asked
    got, error = attempt(ws.receive())
    expect = model.receive(typ)
    if expect == "delivered":
        S.check(error is None and got is server.incoming and S.eq(got, {"type": typ, "text": "t", "code": 1001, "reason": "r"}), "a legal message is delivered unchanged")
    elif expect == "refused":
        S.check(isinstance(error, RuntimeError) and server.asked == asked, "nothing is received after a disconnect")
    else:
        S.check(isinstance(error, RuntimeError), "an illegal message raises an error")
    S.cover("receive " + expect)


def do_send(S, ws, server, model, typ, more, i):
    payload = S.str("payload%d" % i, 0, 1)
    message = {"type": typ, "text": payload, "code": 1000}
    if more is not None:
        message["more_body"] = more
    before = len(server.forwarded)
    got, error = attempt(ws.send(message))
    expect = model.send(typ, more)
    if expect == "forwarded":
        S.check(error is None and len(server.forwarded) == before + 1, "a legal message is forwarded")
        want = {"type": typ, "text": payload, "code": 1000}
        if more is not None:
            want["more_body"] = more
        S.check(S.eq(server.forwarded[before], want), "a message is forwarded unchanged")
    else:
        S.check(isinstance(error, RuntimeError) and len(server.forwarded) == before, "an illegal message is not forwarded")
    S.cover("send " + expect)


CLIENT = {"new": WebSocketState.CONNECTING, "open": WebSocketState.CONNECTED, "gone": WebSocketState.DISCONNECTED}
APP = {"new": WebSocketState.CONNECTING, "open": WebSocketState.CONNECTED, "closed": WebSocketState.DISCONNECTED, "response": WebSocketState.RESPONSE}


def states(S, ws, model):
    S.check(ws.client_state == CLIENT[model.client] and ws.application_state == APP[model.app], "the states")


def h_types(S):
    """Messages of any type at all, after each reachable state."""
    server, model = Server(), Model()
    ws = WebSocket(ws_scope(), server.receive, server.send)
    before = S.choice("before", [[], ["connect"], ["connect", "accept"], ["connect", "accept", "disconnect"], ["connect", "start"], ["connect", "accept", "close"], ["connect", "close"], ["connect", "accept", "close", "disconnect"], ["start"], ["accept"]])
    for x in before:
        if x in ("connect", "disconnect"):
            server.incoming = {"type": "websocket." + x}
            drive(ws.receive())
            model.receive("websocket." + x)
        else:
            t = "websocket.http.response.start" if x == "start" else "websocket." + x
            drive(ws.send({"type": t}))
            model.send(t, None)
    del server.forwarded[:]
    # every string of the length of a known type, and of some other lengths
    n = S.choice("len", [0, 1, 14, 15, 16, 17, 20, 28, 29])
    typ = S.str("type", n, n)
    if S.flag("receive"):
        do_receive(S, ws, server, model, typ)
    else:
        do_send(S, ws, server, model, typ, S.choice("more", [None, True, False]), 0)
    states(S, ws, model)


def h_sequence(S):
    """Every sequence of calls."""
    server, model = Server(), Model()
    ws = WebSocket(ws_scope(), server.receive, server.send)
    ops = [("r", t, None) for t in RECEIVED + ["websocket.send"]] + [("s", t, None) for t in SENT[:4] + ["websocket.receive"]] + [("s", SENT[4], True), ("s", SENT[4], False)]
    for i in range(S.q(4, 5)):
        how, typ, more = S.choice("op%d" % i, ops)
        if how == "r":
            server.incoming = {"type": typ}
            got, error = attempt(ws.receive())
            expect = model.receive(typ)
            S.check((error is None and got is server.incoming) if expect == "delivered" else isinstance(error, RuntimeError), "receive")
            S.cover("receive " + expect)
        else:
            message = {"type": typ} if more is None else {"type": typ, "more_body": more}
            before = len(server.forwarded)
            got, error = attempt(ws.send(message))
            expect = model.send(typ, more)
            if expect == "forwarded":
                S.check(error is None and server.forwarded[before:] == [message], "forwarded")
            else:
                S.check(isinstance(error, RuntimeError) and len(server.forwarded) == before, "not forwarded")
            S.cover("send " + expect)
        states(S, ws, model)


def h_failures(S):
    """Failed sends are reported as disconnects; nothing is forwarded afterwards."""
    server, model = Server(), Model()
    ws = WebSocket(ws_scope(), server.receive, server.send)
    server.incoming = {"type": "websocket.connect"}
    drive(ws.accept())
    n = S.q(3, 4)
    failed = False
    for i in range(n):
        how = S.choice("op%d" % i, ["send", "close", "text", "bytes", "json", "receive"])
        fail = None if failed else S.choice("fail%d" % i, [None, "os", "conn"])
        server.failure = {None: None, "os": OSError("gone"), "conn": ConnectionResetError("gone")}[fail]
        before = len(server.forwarded)
        server.incoming = {"type": "websocket.receive", "text": "x"}
        coro = {
            "send": lambda: ws.send({"type": "websocket.send", "text": "x"}),
            "close": lambda: ws.close(),
            "text": lambda: ws.send_text("x"),
            "bytes": lambda: ws.send_bytes(b"x"),
            "json": lambda: ws.send_json([1]),
            "receive": lambda: ws.receive(),
        }[how]()
        got, error = attempt(coro)
        if how == "receive":
            S.check(error is None, "receiving goes on")
        elif failed:
            S.check(isinstance(error, RuntimeError) and len(server.forwarded) == before, "nothing is forwarded after a failure or a close")
            S.cover("refused")
        elif fail is not None:
            S.check(isinstance(error, WebSocketDisconnect) and error.code == 1006, "reported as a disconnect")
            S.check(len(server.forwarded) == before + 1, "not repeated")
            failed = True
            S.cover(fail)
        else:
            S.check(error is None and len(server.forwarded) == before + 1, "forwarded")
            failed = how == "close"
    S.check(failed == (ws.application_state == WebSocketState.DISCONNECTED), "remembered")


def h_other_failure(S):
    """Other errors of the server's send propagate as they are."""
    server = Server()
    ws = WebSocket(ws_scope(), server.receive, server.send)
    server.incoming = {"type": "websocket.connect"}
    accepted = S.flag("accepted")
    if accepted:
        drive(ws.accept())
    server.failure = Boom("b") if accepted or S.flag("boom") else OSError("o")
    how = S.choice("op", ["send", "close"]) if accepted else S.choice("op", ["accept", "close"])
    got, error = attempt(ws.send({"type": "websocket." + how}))
    S.check(error is server.failure, "propagates")
    S.cover("other")


def h_accept(S):
    """accept() waits for the connect message exactly if it has not been received."""
    server, model = Server(), Model()
    ws = WebSocket(ws_scope(), server.receive, server.send)
    n = S.choice("len", [16, 17, 20])
    first = S.str("first", n, n)
    early = S.flag("early")
    server.incoming = {"type": first}
    sub = S.choice("sub", [None, "s"])
    headers = S.choice("headers", [None, [], [(b"a", b"b")]])
    if early:
        got, error = attempt(ws.receive())
        S.check((error is None) == (model.receive(first) == "delivered"), "connect")
        if error is not None:
            return
        S.check(server.asked == 1, "asked once")
    got, error = attempt(ws.accept(subprotocol=sub, headers=headers))
    ok = early or model.receive(first) == "delivered"
    S.check(server.asked == 1, "the connect message is asked for once")
    if ok:
        S.check(error is None and len(server.forwarded) == 1, "accepted")
        m = server.forwarded[0]
        S.check(m["type"] == "websocket.accept" and m["subprotocol"] == sub and list(m["headers"]) == (headers or []), "with subprotocol and headers")
        got, error = attempt(ws.accept())
        S.check(isinstance(error, RuntimeError) and len(server.forwarded) == 1, "not twice")
        S.cover("accepted")
    else:
        S.check(isinstance(error, RuntimeError) and server.forwarded == [], "no accept without connect")
        S.cover("refused")


class Pause:
    def __await__(self):
        yield


def h_concurrent(S):
    """Tasks sending through one websocket: the server only ever sees legal sequences."""
    n = S.q(3, 4)
    ops = [S.choice("op%d" % i, ["close", "send", "accept"]) for i in range(n)]
    steps = [S.pick("step%d" % i, 0, n - 1) for i in range(2 * n - 1)]
    order = []

    async def receive():
        return {"type": "websocket.connect"}

    async def send(message):
        order.append(message["type"])
        await Pause()

    ws = WebSocket(ws_scope(), receive, send)
    model = Model()

    async def task(op):
        try:
            await ws.send({"type": "websocket." + op})
            return "ok"
        except RuntimeError:
            return "refused"

    coros = [task(op) for op in ops]
    started = []
    done = {}

    def step(i):
        if i in done:
            return
        if i not in started:
            started.append(i)
        try:
            coros[i].send(None)
        except StopIteration as e:
            done[i] = e.value

    for i in steps:
        step(i)
    for i in range(n):
        while i not in done:
            step(i)
    legal = []
    for i in started:
        expect = "ok" if model.send("websocket." + ops[i], None) == "forwarded" else "refused"
        S.check(done[i] == expect, "each call in the state it found")
        if expect == "ok":
            legal.append("websocket." + ops[i])
    S.check(order == legal, "a legal sequence")
    S.cover("concurrent")


ASSUMPTIONS = ["'nothing after close or disconnect': nothing is sent after a close or a failed send, nothing is received after a disconnect; a failure of accept itself propagates as it is"]
HARNESSES = [
    dict(name="h_types", covers=["receive delivered", "receive error", "receive refused", "send forwarded", "send refused"], bounds="every string of 9 lengths (those of all known types) as message type in each of 10 reachable states; any payload of <= 1 character"),
    dict(name="h_sequence", covers=["receive delivered", "receive error", "receive refused", "send forwarded", "send refused"], bounds="every sequence of 4 (thorough 5) of 11 calls"),
    dict(name="h_failures", covers=["os", "conn", "refused"], bounds="every sequence of 3 (thorough 4) of 6 calls after accepting, each failing with OSError, a subclass, or not"),
    dict(name="h_other_failure", covers=["other"], bounds="failures before and after accepting"),
    dict(name="h_accept", covers=["accepted", "refused"], bounds="every string of 3 lengths as the first message's type; subprotocol and headers"),
    dict(name="h_concurrent", covers=["concurrent"], bounds="every interleaving of 3 (thorough 4) tasks each sending one of 3 messages, suspended in the server"),
]
