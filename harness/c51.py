"""C51: checking for a disconnect is accurate and loses no data."""
import asyncio

from hlib import Deadlock, http_scope, run_closed, ticks

from starlette.middleware.base import BaseHTTPMiddleware
from starlette.requests import ClientDisconnect, Request
from starlette.responses import Response


class Client:
    """Messages that become available over time; waiting for one loses nothing when cancelled."""

    def __init__(self, messages, gaps, ends):
        self.messages, self.gaps, self.ends = list(messages), gaps, ends
        self.available, self.gone, self.taken = [], False, 0
        self.news = asyncio.Event()
        self.sent = []

    async def feed(self):
        for m, gap in zip(self.messages + [None], self.gaps):
            await ticks(gap)
            if m is None:
                if not self.ends:
                    return
                self.gone = True
            else:
                self.available.append(m)
            self.news.set()

    async def receive(self):
        while self.taken >= len(self.available) and not self.gone:
            self.news.clear()
            await self.news.wait()
        if self.taken < len(self.available):
            self.taken += 1
            return self.available[self.taken - 1]
        return {"type": "http.disconnect"}

    async def send(self, m):
        self.sent.append(m)


def attempt(S, go):
    async def timed():
        await go()
        return asyncio.get_running_loop().slept

    try:
        return "ok" if run_closed(timed()) == 0 else "waits"
    except Deadlock:
        return "hangs"
    except Exception as e:
        return e


async def passing(request, call_next):
    return await call_next(request)


def make_messages(S, n, complete):
    chunks = [S.bytes("chunk%d" % i, 0, 1) for i in range(n)]
    messages = [{"type": "http.request", "body": c, "more_body": i < n - 1 or not complete} for i, c in enumerate(chunks)]
    whole = b""
    for c in chunks:
        whole = whole + c
    return whole, messages


def h_interleaved(S):
    """Checks between the reads of a body; every arrival time."""
    n = S.pick("n", 1, S.q(2, 3))
    whole, messages = make_messages(S, n, True)
    gaps = [S.pick("gap%d" % i, 0, S.q(1, 2)) for i in range(n)] + [0]
    layers = S.pick("layers", 0, S.q(1, 2))
    checks = [S.pick("checks%d" % i, 0, 2) for i in range(3)]
    pause = S.pick("pause", 0, 1)
    how = S.choice("how", ["body", "stream"])
    ends = S.flag("ends")
    log, out, clients = [], [], []

    async def check(request, times):
        for _ in range(times):
            await ticks(pause)
            was = clients[0].gone
            answer = await request.is_disconnected()
            log.append((answer, was, clients[0].gone))

    async def app(scope, receive, send):
        request = Request(scope, receive)
        await check(request, checks[0])
        try:
            if how == "body":
                out.append(await request.body())
            else:
                got = b""
                async for c in request.stream():
                    got = got + c
                    await check(request, checks[1])
                out.append(got)
        except ClientDisconnect:
            out.append(None)
        await check(request, checks[2])
        await Response(b"")(scope, receive, send)

    wrapped = app
    for _ in range(layers):
        wrapped = BaseHTTPMiddleware(wrapped, dispatch=passing)

    async def go():
        clients.append(Client(messages, gaps, ends))
        feeding = asyncio.ensure_future(clients[0].feed())
        await wrapped(http_scope(method="POST"), clients[0].receive, clients[0].send)
        await feeding

    outcome = attempt(S, go)
    S.check(outcome == "ok", "outcome")
    S.check(out[0] is not None and S.eq(out[0], whole), "the body is complete")
    for answer, was, now in log:
        S.check(now or not answer, "disconnected before the client was")
    if checks[2]:
        answer, was, now = log[-checks[2]]
        S.check(answer or not was, "a disconnect that is available is not noticed")
    answers = [a for a, _, _ in log]
    S.check(answers == sorted(answers), "disconnected for good")
    S.check(len(clients[0].sent) >= 2 and not clients[0].sent[-1].get("more_body", False), "the response")
    S.cover("gone" if True in answers else "there")


def h_middleware(S):
    """A function middleware checks before calling the application."""
    n = S.pick("n", 1, S.q(2, 3))
    whole, messages = make_messages(S, n, True)
    gaps = [S.pick("gap%d" % i, 0, 1) for i in range(n)] + [0]
    layers = S.pick("layers", 1, 2)
    checks = S.pick("checks", 0, 4)
    pause = S.pick("pause", 0, 1)
    how = S.choice("how", ["body", "stream", "messages"])
    read = S.choice("read", ["none", "body"])
    log, out = [], []

    async def app(scope, receive, send):
        if how == "messages":
            got = b""
            more = True
            while more:
                m = await receive()
                if m["type"] != "http.request":
                    return
                got = got + m.get("body", b"")
                more = m.get("more_body", False)
            out.append(got)
        elif how == "body":
            out.append(await Request(scope, receive).body())
        else:
            got = b""
            async for c in Request(scope, receive).stream():
                got = got + c
            out.append(got)
        await Response(b"")(scope, receive, send)

    async def dispatch(request, call_next):
        for _ in range(checks):
            await ticks(pause)
            log.append(await request.is_disconnected())
        if read == "body":
            log.append(not S.eq(await request.body(), whole))
        return await call_next(request)

    wrapped = app
    for _ in range(layers):
        wrapped = BaseHTTPMiddleware(wrapped, dispatch=dispatch)

    async def go():
        client = Client(messages, gaps, False)
        feeding = asyncio.ensure_future(client.feed())
        await wrapped(http_scope(method="POST"), client.receive, client.send)
        await feeding

    outcome = attempt(S, go)
    S.check(outcome == "ok", "outcome")
    S.check(True not in log, "nobody has disconnected, the middleware reads the body")
    S.check(len(out) == 1 and S.eq(out[0], whole), "the body is complete")
    S.cover(how)


def h_gone(S):
    """The client leaves before the end of the body: noticed after at most one check per message."""
    n = S.pick("n", 0, 2)
    whole, messages = make_messages(S, n, False)
    gaps = [S.pick("gap%d" % i, 0, 1) for i in range(n + 1)]
    layers = S.pick("layers", 0, S.q(2, 3))
    where = S.choice("where", ["application", "middleware"]) if layers else "application"
    pause = S.pick("pause", 0, 1)
    reads = S.flag("reads")
    log, result = [], []

    async def check(request):
        await ticks(5)
        for _ in range(n + 2):
            await ticks(pause)
            log.append(await request.is_disconnected())
        if reads:
            try:
                result.append(await request.body())
            except ClientDisconnect:
                result.append("gone")

    async def app(scope, receive, send):
        if where == "application":
            await check(Request(scope, receive))
        await Response(b"")(scope, receive, send)

    async def dispatch(request, call_next):
        if where == "middleware" and not log:
            await check(request)
        return await call_next(request)

    wrapped = app
    for _ in range(layers):
        wrapped = BaseHTTPMiddleware(wrapped, dispatch=dispatch)

    async def go():
        client = Client(messages, gaps, True)
        feeding = asyncio.ensure_future(client.feed())
        await wrapped(http_scope(method="POST"), client.receive, client.send)
        await feeding

    outcome = attempt(S, go)
    S.check(outcome == "ok", "outcome")
    S.check(log == sorted(log) and log[n:] == [True, True], "noticed once the messages before have been received")
    S.check(result == (["gone"] if reads else []), "an incomplete body is not read as complete")
    S.cover(where)


def h_waiting(S):
    """A client that sends nothing more: the check answers at once, and can be repeated."""
    n = S.pick("n", 0, 2)
    whole, messages = make_messages(S, n, False)
    layers = S.pick("layers", 0, S.q(2, 3))
    times = S.pick("times", 1, 4)
    log, turns = [], []

    async def app(scope, receive, send):
        request = Request(scope, receive)
        for _ in range(times):
            log.append(await request.is_disconnected())
        await Response(b"")(scope, receive, send)

    wrapped = app
    for _ in range(layers):
        wrapped = BaseHTTPMiddleware(wrapped, dispatch=passing)

    async def go():
        client = Client(messages, [0] * (n + 1), False)
        await client.feed()
        await wrapped(http_scope(method="POST"), client.receive, client.send)

    outcome = attempt(S, go)
    S.check(outcome == "ok", "answers without waiting for the client")
    S.check(log == [False] * times, "still connected")
    S.cover("connected")


ASSUMPTIONS = [
    "the real asyncio and anyio run the coroutines on one event loop; schedules are delays in loop iterations",
    "the server's receive loses nothing when cancelled while waiting and repeats the disconnect when asked again",
    "one request object makes the checks and the reads (each function middleware and the application have their own)",
    "each check receives at most one message, so a disconnect behind unread body messages is noticed after as many checks",
]
HARNESSES = [
    dict(name="h_interleaved", covers=["gone", "there"], bounds="1-2 (thorough 3) messages of <= 1 byte arriving after 0-1 (2) loop iterations each; 0-2 checks before, between and after the reads; 0-1 (2) function middlewares; disconnect after the body or never"),
    dict(name="h_middleware", covers=["body", "stream", "messages"], bounds="1-2 (3) messages; 0-4 checks in each of 1-2 function middlewares which then read the body or not; application reading messages, body() or stream()"),
    dict(name="h_gone", covers=["application", "middleware"], bounds="disconnect after 0-2 messages; checks in the application behind 0-2 (3) function middlewares or in a middleware"),
    dict(name="h_waiting", covers=["connected"], bounds="0-2 messages, 1-4 checks, 0-2 (3) function middlewares"),
]
