"""C35: function middleware leaves the request body intact for the application."""
import asyncio
import json

from hlib import Deadlock, http_scope, run_closed, ticks

from starlette.middleware.base import BaseHTTPMiddleware
from starlette.requests import ClientDisconnect, Request
from starlette.responses import Response


def body_messages(S, n, size):
    """A request body in n messages: (chunks, messages)."""
    chunks, messages = [], []
    for i in range(n):
        c = S.bytes("chunk%d" % i, 0, size)
        m = {"type": "http.request", "body": c}
        if i < n - 1:
            m["more_body"] = True
        elif S.flag("explicit"):
            m["more_body"] = False
        chunks.append(c)
        messages.append(m)
    if n > 1 and S.flag("bare"):
        # a message without a body
        del messages[-1]["body"]
        chunks[-1] = b""
    return chunks, messages


def joined(chunks):
    out = b""
    for c in chunks:
        out = out + c
    return out


class Client:
    def __init__(self, messages, delay=0, gone=False):
        self.messages, self.delay, self.gone, self.sent, self.log = list(messages), delay, gone, [], []
        self.end = asyncio.Event()

    async def receive(self):
        if self.messages:
            await ticks(self.delay)
            if self.messages:
                return self.messages.pop(0)
        if not self.gone:
            await asyncio.Event().wait()
        self.log.append("gone")
        return {"type": "http.disconnect"}

    async def send(self, m):
        self.sent.append(m)


async def read_some(request, how, count):
    """What a middleware reads; returns what it streamed away (None: nothing)."""
    if how == "stream":
        taken = []
        async for c in request.stream():
            taken.append(c)
        return taken
    if how == "part":
        taken = []
        if count:
            async for c in request.stream():
                taken.append(c)
                if len(taken) == count:
                    break
        return taken
    if how == "body":
        return await request.body()
    return None


async def app_reads(how, scope, receive):
    """(outcome, data) of an application reading the body."""
    if how == "messages":
        data = b""
        while True:
            m = await receive()
            if m["type"] == "http.disconnect":
                return "gone", data
            data = data + m.get("body", b"")
            if not m.get("more_body", False):
                return "end", data
    request = Request(scope, receive)
    try:
        if how == "body":
            return "end", await request.body()
        data = b""
        async for c in request.stream():
            data = data + c
        return "end", data
    except ClientDisconnect:
        return "gone", None if how == "body" else data


def attempt(S, go):
    try:
        run_closed(go())
        return "ok"
    except Deadlock:
        return "hangs"
    except Exception as e:
        return e


def layered(app, reads):
    """Middlewares, outermost first, each reading as told; what they got."""
    got = []

    def make(app, i, how, count):
        async def dispatch(request, call_next):
            got[i] = await read_some(request, how, count)
            return await call_next(request)

        return BaseHTTPMiddleware(app, dispatch=dispatch)

    for i, (how, count) in reversed(list(enumerate(reads))):
        got.append(None)
        app = make(app, i, how, count)
    return app, got


def remaining(S, reads, got, whole):
    """Follows the body through the middlewares: checks what each got, returns what is left."""
    left = whole
    ok = []
    for (how, count), g in zip(reads, got):
        if how == "body":
            ok.append(S.eq(g, left))
        elif how in ("stream", "part"):
            taken = joined(g)
            ok.append(S.eq(taken, left[: len(taken)]) if len(taken) <= len(left) else False)
            left = left[len(taken) :]
            if how == "stream":
                ok.append(len(left) == 0)
    return S.And(True, *ok), left


def h_read(S):
    """Every chunking, every amount read by the middlewares, every way the application reads."""
    n = S.pick("n", 1, S.q(3, 4))
    size = S.q(1, 2)
    chunks, messages = body_messages(S, n, size)
    layers = S.pick("layers", 1, 2)
    reads = [(S.choice("read%d" % i, ["none", "body", "stream", "part"]), 0) for i in range(layers)]
    reads = [(how, S.pick("count%d" % i, 1, 2) if how == "part" else 0) for i, (how, _) in enumerate(reads)]
    reading = S.choice("reading", ["messages", "body", "stream"])
    delay = S.pick("delay", 0, 1)
    seen = []

    async def app(scope, receive, send):
        seen.append(await app_reads(reading, scope, receive))
        await Response(b"done")(scope, receive, send)

    wrapped, got = layered(app, reads)
    clients = []

    async def go():
        clients.append(Client(messages, delay))
        await wrapped(http_scope(method="POST"), clients[0].receive, clients[0].send)

    outcome = attempt(S, go)
    S.check(outcome == "ok", "outcome")
    S.check(len(seen) == 1 and seen[0][0] == "end", "the body ends")
    ok, left = remaining(S, reads, got, joined(chunks))
    S.check(ok, "what the middlewares read")
    S.check(S.eq(seen[0][1], left), "what the application reads")
    S.check([m.get("body") for m in clients[0].sent] == [None, b"done", b""], "the response")
    S.cover("left" if len(left) else "empty")


def h_twice(S):
    """Middlewares that read again after the application has."""
    n = S.pick("n", 1, 3)
    chunks, messages = body_messages(S, n, 1)
    before = S.choice("before", ["none", "body"])
    reading = S.choice("reading", ["messages", "body", "stream", "nothing"])
    after = S.choice("after", ["body", "stream"])
    seen, again = [], []

    async def app(scope, receive, send):
        if reading != "nothing":
            seen.append(await app_reads(reading, scope, receive))
        await Response(b"done")(scope, receive, send)

    async def dispatch(request, call_next):
        if before == "body":
            await request.body()
        response = await call_next(request)
        try:
            again.append(await request.body() if after == "body" else joined([c async for c in request.stream()]))
        except RuntimeError:
            again.append("error")
        return response

    async def go():
        c = Client(messages)
        await BaseHTTPMiddleware(app, dispatch=dispatch)(http_scope(method="POST"), c.receive, c.send)

    S.check(attempt(S, go) == "ok", "outcome")
    whole = joined(chunks)
    S.check(reading == "nothing" or (seen[0][0] == "end" and S.eq(seen[0][1], whole)), "what the application reads")
    if before == "none" and reading != "nothing":
        S.check(isinstance(again[0], str), "reading a consumed body is an error")
        S.cover("error")
    else:
        S.check(not isinstance(again[0], str) and S.eq(again[0], whole), "reading again")
        S.cover("again")


def h_disconnect(S):
    """The client goes away before the end of the body."""
    n = S.pick("n", 0, S.q(2, 3))
    chunks = [S.bytes("chunk%d" % i, 0, 1) for i in range(n)]
    messages = [{"type": "http.request", "body": c, "more_body": True} for c in chunks]
    layers = S.pick("layers", 1, 2)
    reads = [(S.choice("read%d" % i, ["none", "body", "stream", "part"]), 1) for i in range(layers)]
    tolerant = S.flag("tolerant")
    reading = S.choice("reading", ["messages", "body", "stream"])
    delay = S.pick("delay", 0, 1)
    seen, failed, streamed = [], [], []

    async def app(scope, receive, send):
        seen.append(await app_reads(reading, scope, receive))
        await Response(b"done")(scope, receive, send)

    def make(app, how, count):
        async def dispatch(request, call_next):
            try:
                part = await read_some(request, how, count)
                if how == "part":
                    streamed.append(joined(part))
            except ClientDisconnect:
                failed.append(how)
                if not tolerant:
                    raise
            return await call_next(request)

        return BaseHTTPMiddleware(app, dispatch=dispatch)

    wrapped = app
    for how, count in reversed(reads):
        wrapped = make(wrapped, how, count)

    async def go():
        c = Client(messages, delay, gone=True)
        await wrapped(http_scope(method="POST"), c.receive, c.send)

    outcome = attempt(S, go)
    S.check(outcome != "hangs", "hangs")
    for how, count in reads:
        if how in ("body", "stream"):
            S.check(len(failed) > 0, "an incomplete body is read as complete")
    if failed and not tolerant:
        S.check(isinstance(outcome, ClientDisconnect) and not seen, "the disconnect is reported")
        S.cover("reported")
        return
    S.check(outcome == "ok", "outcome")
    S.check(len(seen) == 1 and seen[0][0] == "gone", "the application is told")
    data = seen[0][1]
    if data is not None and not failed:
        S.check(S.eq(joined(streamed) + data, joined(chunks)), "what arrived before")
    S.cover("told")


def h_afterwards(S):
    """After the body: a disconnect only when the client is gone or the response is sent."""
    how = S.choice("how", ["none", "body", "stream", "part"])
    layers = S.pick("layers", 1, 2)
    when = S.choice("when", ["never", 0, 2, 5, 8]) if not S.thorough else S.choice("when", ["never"] + list(range(12)))
    chunk = S.bytes("chunk", 0, 1)
    work = S.pick("work", 0, S.q(3, 5))
    slow = S.pick("slow", 0, S.q(1, 2))
    seen, log = [], []
    state = {"n": 0, "gone": 0}

    async def receive():
        state["n"] += 1
        if state["n"] == 1:
            return {"type": "http.request", "body": chunk, "more_body": False}
        if when == "never":
            await asyncio.Event().wait()
        while state["gone"] < when:
            state["gone"] += 1
            await ticks(1)
        log.append("gone")
        return {"type": "http.disconnect"}

    async def send(m):
        await ticks(slow)
        log.append("start" if m["type"] == "http.response.start" else "end" if not m.get("more_body", False) else "body")

    async def app(scope, receive, send):
        seen.append(await app_reads("messages", scope, receive))

        async def listen():
            for _ in range(2):
                m = await receive()
                log.append(m["type"])

        listener = asyncio.ensure_future(listen())
        await ticks(work)
        await Response(b"done")(scope, receive, send)
        await listener

    async def dispatch(request, call_next):
        await read_some(request, how, 1)
        return await call_next(request)

    wrapped = app
    for _ in range(layers):
        wrapped = BaseHTTPMiddleware(wrapped, dispatch=dispatch)

    async def go():
        await wrapped(http_scope(method="POST"), receive, send)

    outcome = attempt(S, go)
    S.check(outcome == "ok", "outcome")
    S.check(seen[0][0] == "end", "the body ends")
    S.check(S.eq(seen[0][1], b"" if how == "stream" or how == "part" else chunk), "what the application reads")
    S.check(log.count("http.disconnect") == 2 and "http.request" not in log, "disconnects afterwards")
    at = log.index("http.disconnect")
    S.check("gone" in log[:at] or "end" in log[:at], "a disconnect while the client is there and the response is not sent")
    S.check([x for x in log if x in ("start", "body", "end")] == ["start", "body", "end"], "the response")
    S.cover("client" if "gone" in log[:at] else "response")


def h_large(S):
    """Bodies of many chunks, or large ones, under middlewares that read them or not."""
    b = S.bytes("b", 0, 1)
    chunks = [b"%d." % i for i in range(130)] if S.flag("many") else [b"x" * 70000, b"y" * 1100000]
    chunks.insert(S.choice("at", [0, len(chunks)]), b)
    messages = [{"type": "http.request", "body": c, "more_body": i + 1 < len(chunks)} for i, c in enumerate(chunks)]
    how = S.choice("app", ["messages", "body", "stream"])
    reads = [(S.choice("read%d" % i, ["none", "body"]), 0) for i in range(2)]
    client = Client(messages)
    seen = []

    async def app(scope, receive, send):
        seen.append(await app_reads(how, scope, receive))
        await Response(b"ok")(scope, receive, send)

    stack, got = layered(app, reads)
    out = attempt(S, lambda: stack(http_scope(method="POST"), client.receive, client.send))
    S.check(out == "ok", "raised")
    S.check(len(seen) == 1 and seen[0][0] == "end" and S.eq(seen[0][1], joined(chunks)), "the body the application reads")
    for (r, _), g in zip(reads, got):
        S.check(g is None if r == "none" else S.eq(g, joined(chunks)), "the body a middleware reads")
    S.cover(how)


ASSUMPTIONS = [
    "the real asyncio and anyio run the coroutines on one event loop; schedules are delays in loop iterations",
    "the server sends legal receive messages and repeats the disconnect when asked again",
    "a middleware reads with body() or stream() before calling the application and does not read while it runs; checks for disconnects are the subject of C51",
]
HARNESSES = [
    dict(name="h_read", covers=["left", "empty"], bounds="1-3 (thorough 4) messages of any bytes of length <= 1 (2) with optional fields; 1-2 middlewares reading nothing, with body(), with stream() to the end or for 1-2 chunks; application reading messages, body() or stream(); delayed or immediate messages"),
    dict(name="h_twice", covers=["error", "again"], bounds="1-3 messages of <= 1 byte; reads before and after call_next"),
    dict(name="h_disconnect", covers=["reported", "told"], bounds="disconnect after 0-2 (3) messages of <= 1 byte; 1-2 middlewares reading as above, passing the disconnect on or ignoring it"),
    dict(name="h_afterwards", covers=["client", "response"], bounds="disconnect never or after 5 (12) different times, response after 0..3 (5) iterations, slow client, 1-2 middlewares"),
    dict(name="h_large", covers=["messages", "body", "stream"], bounds="131 chunks, or chunks of 70000 and 1100000 bytes, around any <= 1 byte; two middlewares reading the body or not; 3 ways of reading"),
]
