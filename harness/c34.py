"""C34: function middleware passes responses through unchanged."""
import asyncio

import anyio

from hlib import Deadlock, http_scope, run_closed, ticks, ws_scope

from starlette.background import BackgroundTask
from starlette.middleware.base import BaseHTTPMiddleware
from starlette.responses import PlainTextResponse, Response, StreamingResponse


class Boom(Exception):
    pass


class Gone(OSError):
    pass


def attempt(S, go):
    """'ok' or the exception the call ended with; a hang is a violation."""
    try:
        run_closed(go())
        return "ok"
    except Deadlock:
        S.check(False, "hangs")
        return "hangs"
    except Exception as e:
        return e


async def passing(request, call_next):
    return await call_next(request)


def wrap(app, layers, dispatch=passing):
    for _ in range(layers):
        app = BaseHTTPMiddleware(app, dispatch=dispatch)
    return app


def message_list(S, n, size):
    """A legal response: status, headers, bodies and how it is terminated."""
    status = S.int("status", 200, 599)
    headers = [(b"x-a", S.bytes("value", 0, 1)), (b"set-cookie", b"a"), (b"set-cookie", b"b")][: S.pick("headers", 0, 3)]
    bodies = [S.bytes("body%d" % i, 0, size) for i in range(n)]
    ending = S.choice("ending", ["last chunk", "empty", "bare"] if n else ["empty", "bare"])
    messages = [{"type": "http.response.start", "status": status, "headers": headers}]
    for b in bodies:
        messages.append({"type": "http.response.body", "body": b, "more_body": True})
    if ending == "last chunk":
        messages[-1] = {"type": "http.response.body", "body": bodies[-1]}
        if S.flag("says so"):
            messages[-1]["more_body"] = False
    elif ending == "empty":
        messages.append({"type": "http.response.body", "body": b"", "more_body": False})
    else:
        messages.append({"type": "http.response.body"})
    return status, [tuple(h) for h in headers], bodies, messages


def complete(sent):
    return len(sent) > 0 and sent[-1]["type"] == "http.response.body" and not sent[-1].get("more_body", False)


def shape(S, sent):
    """One start, then bodies of which at most the last terminates."""
    ok = []
    for i, m in enumerate(sent):
        ok.append(m["type"] == ("http.response.body" if i else "http.response.start"))
        if i and i < len(sent) - 1:
            ok.append(m.get("more_body", False) is True)
    return S.And(True, *ok)


def pieces(sent):
    return [m["body"] for m in sent[1:] if len(m.get("body", b"")) > 0]


async def silence():
    await asyncio.Event().wait()


def h_messages(S):
    """Every response, whatever its chunks, headers and ending."""
    n = S.pick("n", 0, S.q(3, 4))
    status, headers, bodies, messages = message_list(S, n, 2)
    layers = S.pick("layers", 1, S.q(2, 3))
    info = {"template": object(), "context": object()} if S.flag("debug") else None
    sent = []

    async def app(scope, receive, send):
        if info is not None:
            await send({"type": "http.response.debug", "info": info})
        for m in messages:
            await send(m)

    async def send(m):
        sent.append(m)

    got = attempt(S, lambda: wrap(app, layers)(http_scope(), silence, send))
    S.check(got == "ok", "raised")
    if info is not None:
        S.check(len(sent) > 0 and sent[0]["type"] == "http.response.debug" and sent[0]["info"] is info, "debug message")
        sent = sent[1:]
    S.check(shape(S, sent) and complete(sent), "a complete response")
    S.check(S.And(S.eq(sent[0]["status"], status), S.eq([tuple(h) for h in sent[0]["headers"]], headers)), "status and headers")
    S.check(S.eq(pieces(sent), [b for b in bodies if len(b) > 0]), "the chunks")
    S.cover("chunks%d" % len(pieces(sent)))


def h_schedule(S):
    """Every relative timing of application, middleware and client."""
    n = S.pick("n", 0, S.q(2, 3))
    d = 2
    before = [S.pick("before%d" % i, 0, d) for i in range(n + 2)]
    after = S.pick("after", 0, 3)
    slow = S.pick("slow", 0, S.q(1, 2))
    thinking = S.pick("thinking", 0, 2)
    layers = S.pick("layers", 1, 2)
    bodies = [S.bytes("body%d" % i, 1, 1) for i in range(n)]
    log, sent = [], []

    async def app(scope, receive, send):
        await ticks(before[0])
        await send({"type": "http.response.start", "status": 201, "headers": [(b"x", b"y")]})
        for i in range(n):
            await ticks(before[i + 1])
            await send({"type": "http.response.body", "body": bodies[i], "more_body": True})
        await ticks(before[n + 1])
        await send({"type": "http.response.body", "body": b"", "more_body": False})
        await ticks(after)
        log.append("finished")

    async def dispatch(request, call_next):
        await ticks(thinking)
        response = await call_next(request)
        await ticks(thinking)
        return response

    async def send(m):
        await ticks(slow)
        sent.append(m)

    got = attempt(S, lambda: wrap(app, layers, dispatch)(http_scope(), silence, send))
    S.check(got == "ok", "raised")
    S.check(shape(S, sent) and complete(sent), "a complete response")
    S.check(sent[0]["status"] == 201 and sent[0]["headers"] == [(b"x", b"y")], "status and headers")
    S.check(S.eq(pieces(sent), bodies), "the chunks")
    S.check(log == ["finished"], "the application finished before the call returned")
    S.cover("delivered")


def h_errors(S):
    """The application fails at any point."""
    n = S.pick("n", 0, S.q(2, 3))
    at = S.pick("at", 0, n + 2)  # messages sent before the failure
    delay = [S.pick("delay%d" % i, 0, S.q(2, 3)) for i in range(2)]
    slow = S.pick("slow", 0, S.q(1, 2))
    layers = S.pick("layers", 1, S.q(2, 3))
    caught = S.choice("caught", ["no", "replaced", "reraised"])
    bodies = [S.bytes("body%d" % i, 1, 1) for i in range(n)]
    sent = []
    boom = Boom()

    async def app(scope, receive, send):
        messages = [{"type": "http.response.start", "status": 200, "headers": []}]
        messages += [{"type": "http.response.body", "body": b, "more_body": True} for b in bodies]
        messages += [{"type": "http.response.body", "body": b"", "more_body": False}]
        for m in messages[:at]:
            await ticks(delay[0])
            await send(m)
        await ticks(delay[1])
        raise boom

    async def dispatch(request, call_next):
        try:
            return await call_next(request)
        except Boom as e:
            if caught == "reraised":
                raise
            return PlainTextResponse("sorry", 503)

    async def send(m):
        await ticks(slow)
        sent.append(m)

    inner = BaseHTTPMiddleware(app, dispatch=passing if caught == "no" else dispatch)
    got = attempt(S, lambda: wrap(inner, layers - 1)(http_scope(), silence, send))
    S.check(shape(S, sent), "messages")
    if at == 0 and caught == "replaced":
        S.check(got == "ok", "a handled exception is raised again")
        S.check(complete(sent) and sent[0]["status"] == 503 and pieces(sent) == [b"sorry"], "the response made instead")
        S.cover("handled")
        return
    S.check(got is boom, "the exception propagates")
    if at == 0:
        S.check(sent == [], "nothing is sent")
        S.cover("before")
    elif at == n + 2:
        S.check(complete(sent) and S.eq(pieces(sent), bodies), "the complete response")
        S.cover("after")
    else:
        S.check(not complete(sent), "an unfinished response is presented as complete")
        S.check(sent[0]["status"] == 200 and S.eq(pieces(sent), bodies[: at - 1]), "what was sent before the failure")
        S.cover("during")


def h_no_response(S):
    """An application that returns without a response."""
    delay = S.pick("delay", 0, 2)
    handled = S.flag("handled")
    sent = []

    async def app(scope, receive, send):
        await ticks(delay)

    async def dispatch(request, call_next):
        try:
            return await call_next(request)
        except RuntimeError:
            if handled:
                return Response(status_code=599)
            raise

    async def send(m):
        sent.append(m)

    got = attempt(S, lambda: BaseHTTPMiddleware(app, dispatch=dispatch)(http_scope(), silence, send))
    if handled:
        S.check(got == "ok" and len(sent) == 2 and sent[0]["status"] == 599, "the response made instead")
        S.cover("handled")
    else:
        S.check(type(got) is RuntimeError and sent == [], "an error")
        S.cover("error")


def h_replaced(S):
    """A response produced instead of (or in place of) the application's."""
    calls = S.choice("calls", ["no", "yes", "failing"])
    kind = S.choice("kind", ["plain", "streaming"])
    status = S.int("status", 200, 599)
    body = S.bytes("body", 0, 2)
    value = S.bytes("value", 0, 1)
    delay = S.pick("delay", 0, 2)
    layers = S.pick("layers", 0, 1)
    log, sent = [], []

    async def app(scope, receive, send):
        log.append("app")
        await send({"type": "http.response.start", "status": 200, "headers": [(b"x-app", b"1")]})
        for i in range(2):
            await ticks(delay)
            await send({"type": "http.response.body", "body": b"app", "more_body": True})
        message = await receive()
        log.append(message["type"])
        await send({"type": "http.response.body", "body": b"app", "more_body": False})
        if calls == "failing":
            raise Boom
        log.append("end")

    async def task():
        log.append("task")

    async def chunks():
        if len(body) > 0:
            yield body

    async def dispatch(request, call_next):
        if calls != "no":
            await call_next(request)
        r = Response(body, status, background=BackgroundTask(task)) if kind == "plain" else StreamingResponse(chunks(), status, background=BackgroundTask(task))
        r.raw_headers.append((b"x-own", value))
        return r

    async def send(m):
        sent.append(m)

    got = attempt(S, lambda: wrap(BaseHTTPMiddleware(app, dispatch=dispatch), layers)(http_scope(), silence, send))
    S.check(got == "ok" if calls != "failing" else type(got) is Boom, "outcome")
    S.check(shape(S, sent) and complete(sent), "a complete response")
    S.check(S.eq(sent[0]["status"], status), "its status")
    names = [h for h in sent[0]["headers"] if h[0] != b"content-length"]
    S.check(len(names) == 1 and names[0][0] == b"x-own" and S.eq(names[0][1], value), "its headers")
    S.check(S.eq(pieces(sent), [body] if len(body) > 0 else []), "its body")
    S.check(log.count("task") == 1, "its background task")
    if calls == "no":
        S.check("app" not in log, "the application is not called")
    else:
        S.check("http.disconnect" in log, "the application is told")
        S.check(("end" in log) == (calls == "yes"), "the application finishes")
    S.cover(calls)


def h_modified(S):
    """What the middleware changes on the response is delivered, for that response only."""
    status = S.int("status", 200, 599)
    body = S.bytes("body", 1, 1)
    value = S.str("value", 0, 1, ranges=[(0, 255)])
    as_tuple = S.flag("tuple")
    constant = [(b"x-app", b"1"), (b"x-set", b"old")]
    sent = []

    async def app(scope, receive, send):
        await send({"type": "http.response.start", "status": 200, "headers": tuple(constant) if as_tuple else constant})
        await send({"type": "http.response.body", "body": body})

    async def dispatch(request, call_next):
        response = await call_next(request)
        response.status_code = status
        response.headers.append("x-own", value)
        response.headers["x-set"] = "new"
        return response

    async def send(m):
        sent.append(m)

    async def go():
        for _ in range(2):
            await BaseHTTPMiddleware(app, dispatch=dispatch)(http_scope(), silence, send)

    got = attempt(S, go)
    S.check(got == "ok", "raised")
    half = len(sent) // 2
    for part in (sent[:half], sent[half:]):
        S.check(shape(S, part) and complete(part) and S.eq(pieces(part), [body]), "the body")
        S.check(S.eq(part[0]["status"], status), "the new status")
        S.check(S.eq(list(part[0]["headers"]), [(b"x-app", b"1"), (b"x-set", b"new"), (b"x-own", value.encode("latin-1"))]), "the new headers")
    S.cover("modified")


def h_disconnect(S):
    """The client goes away at any time; an application that listens is told, others finish."""
    when = S.pick("when", 0, S.q(9, 14))
    listens = S.choice("listens", ["waits", "waits after start", "streaming", "no"])
    delay = S.pick("delay", 0, S.q(2, 3))
    slow = S.pick("slow", 0, S.q(1, 3))
    layers = S.pick("layers", 1, S.q(2, 3))
    log, sent = [], []

    async def start(send):
        await send({"type": "http.response.start", "status": 200, "headers": []})

    async def app(scope, receive, send):
        if listens == "streaming":

            async def endless():
                for i in range(3):
                    await ticks(delay)
                    yield b"c"
                await silence()

            await StreamingResponse(endless())(scope, receive, send)
            log.append("end")
            return
        if listens == "waits after start":
            await start(send)
        if listens != "no":
            while True:
                await ticks(delay)
                m = await receive()
                if m["type"] == "http.disconnect":
                    break
            log.append("told")
        if listens != "waits after start":
            await start(send)
        for i in range(2):
            await ticks(delay)
            await send({"type": "http.response.body", "body": b"c", "more_body": True})
        await send({"type": "http.response.body", "body": b"", "more_body": False})
        log.append("end")

    first = []

    async def receive():
        if not first:
            first.append(1)
            return {"type": "http.request", "body": b"", "more_body": False}
        await ticks(when)
        return {"type": "http.disconnect"}

    async def send(m):
        await ticks(slow)
        sent.append(m)

    got = attempt(S, lambda: wrap(app, layers)(http_scope(), receive, send))
    S.check(got == "ok", "raised")
    S.check(shape(S, sent), "messages")
    S.check(log == (["end"] if listens in ("streaming", "no") else ["told", "end"]), "the application runs to its end")
    S.check(listens == "streaming" or complete(sent), "what it sends is delivered")
    S.check(len(pieces(sent)) <= 3 and all(p == b"c" for p in pieces(sent)), "the chunks")
    S.cover(listens)


def h_send_fails(S):
    """Sending to the client fails at any point."""
    n = S.pick("n", 0, 2)
    at = S.pick("at", 0, n + 1)
    delay = S.pick("delay", 0, 2)
    layers = S.pick("layers", 1, 2)
    waits = S.flag("waits")
    sent, log = [], []
    gone = Gone()

    async def app(scope, receive, send):
        try:
            await send({"type": "http.response.start", "status": 200, "headers": []})
            for i in range(n):
                await ticks(delay)
                await send({"type": "http.response.body", "body": b"c%d" % i, "more_body": True})
            await send({"type": "http.response.body", "body": b"", "more_body": False})
            if waits:
                await silence()
        finally:
            log.append("released")

    async def send(m):
        if len(sent) == at:
            raise gone
        sent.append(m)

    got = attempt(S, lambda: wrap(app, layers)(http_scope(), silence, send))
    S.check(got is gone, "the failure propagates")
    S.check(len(sent) == at and shape(S, sent) and not complete(sent), "nothing is sent afterwards")
    S.check(pieces(sent) == [b"c%d" % i for i in range(max(0, at - 1))], "the chunks before")
    S.check(log == ["released"], "the application is ended")
    S.cover("failed")


def h_dispatch_fails(S):
    """The middleware function itself fails, before or after calling the application."""
    when = S.choice("when", ["before", "after", "replaced"])
    delay = [S.pick("delay%d" % i, 0, 2) for i in range(2)]
    layers = S.pick("layers", 0, 2)
    started = S.flag("started")
    sent, log = [], []
    boom = Boom()

    async def app(scope, receive, send):
        log.append("called")
        try:
            await send({"type": "http.response.start", "status": 200, "headers": []})
            if started:
                await ticks(delay[0])
                await send({"type": "http.response.body", "body": b"c", "more_body": True})
            await silence()
        finally:
            log.append("released")

    async def body():
        yield b"a"
        raise boom

    async def dispatch(request, call_next):
        if when != "before":
            await call_next(request)
        await ticks(delay[1])
        if when == "replaced":
            return StreamingResponse(body())
        raise boom

    async def send(m):
        sent.append(m)

    got = attempt(S, lambda: wrap(BaseHTTPMiddleware(app, dispatch=dispatch), layers)(http_scope(), silence, send))
    S.check(got is boom, "the failure propagates")
    S.check(log == ([] if when == "before" else ["called", "released"]), "the application is ended")
    S.check(shape(S, sent) and not complete(sent) and pieces(sent) == ([b"a"] if when == "replaced" else []), "messages")
    S.cover(when)


def h_background(S):
    """Background tasks run once, after the response, and do not hold it up."""
    kind = S.choice("kind", ["plain", "streaming"])
    layers = S.pick("layers", 1, S.q(2, 3))
    fails = S.flag("fails")
    slow = S.pick("slow", 0, 2)
    gone = S.choice("gone", [None, 0, 2, 4])
    own = S.flag("own")
    body = S.bytes("body", 1, 1)
    sent, log = [], []

    def make():
        delivered = asyncio.Event()
        boom = Boom()

        async def task():
            await delivered.wait()
            await ticks(slow)
            log.append("task")
            if fails:
                raise boom

        async def mine():
            log.append("own")

        async def chunks():
            yield body

        async def app(scope, receive, send):
            r = Response(body, background=BackgroundTask(task)) if kind == "plain" else StreamingResponse(chunks(), background=BackgroundTask(task))
            await r(scope, receive, send)

        async def dispatch(request, call_next):
            response = await call_next(request)
            if own:
                response.background = BackgroundTask(mine)
            return response

        async def send(m):
            await ticks(slow)
            sent.append(m)
            if complete(sent):
                delivered.set()

        first = []

        async def receive():
            if not first:
                first.append(1)
                return {"type": "http.request", "body": b"", "more_body": False}
            if gone is None:
                await silence()
            await delivered.wait()
            await ticks(gone)
            return {"type": "http.disconnect"}

        return wrap(app, layers, dispatch)(http_scope(), receive, send)

    async def go():
        await make()

    got = attempt(S, go)
    S.check(type(got) is Boom if fails else got == "ok", "outcome")
    S.check(shape(S, sent) and complete(sent) and S.eq(pieces(sent), [body]), "the response")
    S.check(log.count("task") == 1, "the background task")
    S.check(log.count("own") == (layers if own else 0) or fails, "the middleware's background task")
    S.cover("failed" if fails else "ran")


def h_other(S):
    """Other scopes are passed to the application untouched."""
    scope = S.choice("scope", [ws_scope(), {"type": "lifespan"}])
    fails = S.flag("fails")
    log = []
    boom = Boom()

    async def receive():
        pass

    async def send(m):
        pass

    async def app(scope, receive, send):
        log.append((scope, receive, send))
        if fails:
            raise boom

    async def dispatch(request, call_next):
        log.append("dispatch")

    got = attempt(S, lambda: wrap(app, 2, dispatch)(scope, receive, send))
    S.check(got is boom if fails else got == "ok", "outcome")
    S.check(len(log) == 1 and log[0][0] is scope and log[0][1] is receive and log[0][2] is send, "the call")
    S.cover("passed")


def h_large(S):
    """Responses of many chunks and headers, or large ones."""
    b = S.bytes("b", 1, 1)
    bodies = [b"%d." % i for i in range(130)] if S.flag("many") else [b"x" * 70000, b"y" * 1100000]
    bodies.insert(S.choice("at", [0, len(bodies)]), b)
    headers = [(b"x-%d" % (i % 100), b"%d" % i) for i in range(130)]
    messages = [{"type": "http.response.start", "status": 200, "headers": headers}]
    messages += [{"type": "http.response.body", "body": c, "more_body": i + 1 < len(bodies)} for i, c in enumerate(bodies)]
    layers = S.choice("layers", [1, 2, 9])
    sent = []

    async def app(scope, receive, send):
        for m in messages:
            await send(m)

    async def send(m):
        sent.append(m)

    got = attempt(S, lambda: wrap(app, layers)(http_scope(), silence, send))
    S.check(got == "ok", "raised")
    S.check(shape(S, sent) and complete(sent), "a complete response")
    S.check([tuple(h) for h in sent[0]["headers"]] == headers, "headers")
    S.check(S.eq(pieces(sent), bodies), "the chunks")
    S.cover("large")


def h_grouped(S):
    """The middleware calls the application from task groups of its own: failures arrive as themselves."""
    depth = S.pick("depth", 0, 3)
    started = S.flag("started")
    layers = S.pick("layers", 0, 2)
    delay = S.pick("delay", 0, 2)
    fails = S.flag("fails")
    where = S.choice("where", ["application", "function"])
    sent = []
    boom = Boom()

    async def app(scope, receive, send):
        if started or not fails or where == "function":
            await send({"type": "http.response.start", "status": 200, "headers": []})
            await ticks(delay)
            await send({"type": "http.response.body", "body": b"c", "more_body": fails and where == "application"})
        if fails and where == "application":
            raise boom

    async def nested(n, act):
        if n == 0:
            return await act()
        async with anyio.create_task_group():
            return await nested(n - 1, act)

    async def dispatch(request, call_next):
        async def act():
            response = await call_next(request)
            await ticks(delay)
            if fails and where == "function":
                raise boom
            return response

        return await nested(depth, act)

    async def send(m):
        sent.append(m)

    got = attempt(S, lambda: wrap(BaseHTTPMiddleware(app, dispatch=dispatch), layers)(http_scope(), silence, send))
    S.check(got is boom if fails else got == "ok", "outcome")
    S.check(shape(S, sent) and complete(sent) == (not fails), "messages")
    S.check(pieces(sent) == ([b"c"] if not fails or (started and where == "application") else []), "the chunks")
    S.cover("failed" if fails else "delivered")


ASSUMPTIONS = [
    "the real asyncio and anyio run the coroutines on one event loop; schedules are the delays (in loop iterations) given before each step",
    "applications follow ASGI: start messages carry headers, nothing is sent after the terminating message",
    "empty body messages need not be forwarded one by one; the terminating message may be a separate empty one",
    "responses use start and body messages (and the debug extension's)",
]
HARNESSES = [
    dict(name="h_messages", covers=["chunks0", "chunks1", "chunks2", "chunks3"], bounds="<= 3 (thorough 4) chunks of any bytes of length <= 2, any status, <= 3 headers, 3 kinds of termination, with or without a debug message, 1-2 (3) middlewares"),
    dict(name="h_schedule", covers=["delivered"], bounds="<= 2 (3) chunks of any byte, every delay <= 2 before each message, slow client, slow middleware, 1-2 middlewares"),
    dict(name="h_errors", covers=["handled", "before", "during", "after"], bounds="failure after every number of messages of a response with <= 2 (3) chunks, delays <= 2 (3), exception caught, replaced or passed on, 1-2 (3) middlewares"),
    dict(name="h_no_response", covers=["handled", "error"], bounds="delays <= 2"),
    dict(name="h_replaced", covers=["no", "yes", "failing"], bounds="any status, body of length <= 2, header value of length <= 1; plain or streaming; application not called, called, failing; delays <= 2; <= 1 outer middleware"),
    dict(name="h_modified", covers=["modified"], bounds="two consecutive requests to an application with constant headers (list or tuple); any status, body byte and header value of length <= 1"),
    dict(name="h_disconnect", covers=["waits", "waits after start", "streaming", "no"], bounds="disconnect after 0..9 (14) loop iterations, delays <= 2 (3), slow client, 4 kinds of applications, 1-2 (3) middlewares"),
    dict(name="h_send_fails", covers=["failed"], bounds="<= 2 chunks, failure at every message, delays <= 2, application that never ends, 1-2 middlewares"),
    dict(name="h_dispatch_fails", covers=["before", "after", "replaced"], bounds="failure of the function before or after calling an application that never ends, or of its own response; delays <= 2; 0-2 outer middlewares"),
    dict(name="h_background", covers=["failed", "ran"], bounds="plain or streaming response of any byte, slow task, failing task, disconnect at any of 4 times, 1-2 (3) middlewares with own background tasks"),
    dict(name="h_other", covers=["passed"], bounds="websocket and lifespan scopes, failing or not"),
    dict(name="h_large", covers=["large"], bounds="131 chunks, or chunks of 70000 and 1100000 bytes, around any byte; 130 headers; 1, 2 or 9 middlewares"),
    dict(name="h_grouped", covers=["failed", "delivered"], bounds="0-3 nested task groups around the call; application or function failing or not, before or after the start; 0-2 outer middlewares; delays <= 2"),
]
