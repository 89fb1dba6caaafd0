"""C41: lifespan reports startup and shutdown faithfully."""
import functools
from contextlib import asynccontextmanager

from hlib import Channel, drive, http_scope

from starlette.applications import Starlette
from starlette.responses import PlainTextResponse
from starlette.routing import Mount, Route, Router


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


def session(app, log, scope=None, between=None, send_fails=None, cut=None):
    """One lifespan session; what happens is appended to log."""
    scope = {"type": "lifespan", "asgi": {"version": "3.0"}} if scope is None else scope
    messages = [{"type": "lifespan.startup"}, {"type": "lifespan.shutdown"}]

    async def receive():
        m = messages.pop(0)
        if m["type"] == "lifespan.shutdown" and between is not None:
            between(scope)
        if m["type"] == "lifespan.shutdown" and cut is not None:
            raise cut
        log.append(("receive", m["type"]))
        return m

    async def send(message):
        log.append(("send", message["type"]))
        if "message" in message:
            log.append(("message", message["message"]))
        if message["type"] == send_fails:
            raise Boom("send")

    try:
        drive(app(scope, receive, send))
    except BaseException as e:
        if not isinstance(e, (Boom, Stop, RuntimeError)):
            raise
        return e
    return None


def handler(kind, label, log, exc):
    def act():
        log.append(("run", label))
        if exc is not None:
            raise exc

    if kind == "sync":
        return act

    async def aact():
        act()

    if kind == "async":
        return aact
    if kind == "partial":

        async def with_argument(x):
            act()

        return functools.partial(with_argument, 1)

    class Callable:
        async def __call__(self):
            act()

    return Callable()


KINDS = ["sync", "async", "partial", "callable"]


def outcome_of(log, error, exc, when, runs_up, runs_down):
    """The expected log."""
    out = [("receive", "lifespan.startup")] + runs_up
    if when == "up":
        return out + [("send", "lifespan.startup.failed"), ("message", None)]
    out += [("send", "lifespan.startup.complete"), ("receive", "lifespan.shutdown")] + runs_down
    if when == "down":
        return out + [("send", "lifespan.shutdown.failed"), ("message", None)]
    return out + [("send", "lifespan.shutdown.complete")]


def blank(log):
    return [(a, None) if a == "message" else (a, b) for a, b in log]


def contains(S, text, part):
    n = len(part)
    return S.Or(*[text[i : i + n] == part for i in range(len(text) - n + 1)])


def h_handlers(S):
    """Lists of handlers, one of which may fail, in two sessions."""
    log = []
    nup = S.pick("up", 0, S.q(2, 3))
    ndown = S.pick("down", 0, S.q(2, 3))
    when = S.choice("when", [None, "up", "down"])
    S.assume((when != "up" or nup > 0) and (when != "down" or ndown > 0))
    at = S.pick("at", 0, (nup if when == "up" else ndown) - 1) if when else None
    exc = Boom("b") if when is None or S.flag("exception") else Stop("s")
    ups = [handler(S.choice("ku%d" % i, KINDS), "up%d" % i, log, exc if (when, at) == ("up", i) else None) for i in range(nup)]
    downs = [handler(S.choice("kd%d" % i, KINDS), "down%d" % i, log, exc if (when, at) == ("down", i) else None) for i in range(ndown)]
    cls = S.choice("class", [Starlette, Router])
    if S.flag("added"):
        app = cls()
        for h in ups:
            app.add_event_handler("startup", h)
        for h in downs:
            app.add_event_handler("shutdown", h)
    else:
        app = cls(on_startup=ups, on_shutdown=downs)
    runs_up = [("run", "up%d" % i) for i in range(at + 1 if when == "up" else nup)]
    runs_down = [("run", "down%d" % i) for i in range(at + 1 if when == "down" else ndown)]
    for i in range(2):
        del log[:]
        error = session(app, log)
        S.check(error is (exc if when else None), "failures are re-raised, and nothing else")
        S.check(blank(log) == outcome_of(log, error, exc, when, runs_up, runs_down), "the session")
        if when:
            S.check(str(exc) in log[-1][1] and log[-1][1].startswith("Traceback"), "the failure is reported")
    S.cover(when or "complete")


def lifespan_of(form, log, before, after, state):
    def up():
        log.append(("run", "up"))
        if before is not None:
            raise before

    def down():
        log.append(("run", "down"))
        if after is not None:
            raise after

    if form == "context":

        @asynccontextmanager
        async def lifespan(app):
            log.append(("app", app))
            up()
            yield state
            down()

    elif form == "finally":

        @asynccontextmanager
        async def lifespan(app):
            log.append(("app", app))
            up()
            try:
                yield state
            finally:
                down()

    elif form == "asyncgen":

        async def lifespan(app):
            log.append(("app", app))
            up()
            yield state
            down()

    elif form == "gen":

        def lifespan(app):
            log.append(("app", app))
            up()
            yield state
            down()

    else:

        class lifespan:
            def __init__(self, app):
                log.append(("app", app))

            async def __aenter__(self):
                up()
                return state

            async def __aexit__(self, *exc_info):
                down()

    return lifespan


FORMS = ["context", "finally", "asyncgen", "gen", "class"]


def h_forms(S):
    """Each form of lifespan, failing or not, with and without state, in two sessions."""
    log = []
    form = S.choice("form", FORMS)
    exc = S.choice("exc", [Boom("b"), Stop("s")])
    when = S.choice("when", [None, "up", "down"])
    key = "k"
    state = {key: "v"} if S.flag("state") else None
    supported = S.flag("supported")
    lifespan = lifespan_of(form, log, exc if when == "up" else None, exc if when == "down" else None, state)
    app = Starlette(lifespan=lifespan)
    for i in range(2):
        del log[:]
        scope = {"type": "lifespan"}
        if supported:
            scope["state"] = {"given": 1}
        error = session(app, log, scope)
        S.check(log.count(("app", app)) == 1, "entered once, with the application")
        log.remove(("app", app))
        if state is not None and not supported and when != "up":
            # the state cannot be passed on: an error in startup, after which the
            # lifespan is left
            S.check(isinstance(error, RuntimeError) if when is None or form in ("context", "asyncgen", "gen") else error is not None, "an error is raised")
            types = [b for a, b in log if a == "send"]
            S.check(types == ["lifespan.startup.failed"], "reported as a failed startup")
            S.cover("unsupported")
            continue
        S.check(error is (exc if when else None), "failures are re-raised, and nothing else")
        S.check(blank(log) == outcome_of(log, error, exc, when, [("run", "up")], [("run", "down")]), "the session")
        if supported and when != "up":
            S.check(scope["state"] == ({"given": 1} if state is None else {"given": 1, "k": "v"}), "the state")
        S.cover(when or "complete")


def h_state(S):
    """The state reaches the requests."""
    value = S.str("value", 0, 3)
    number = S.int("number")
    log = []
    form = S.choice("form", FORMS)
    mounted = S.flag("mounted")
    seen = []

    async def endpoint(request):
        seen.append((request.state.value, request.state.number))
        request.state.value = "changed"
        return PlainTextResponse("ok")

    routes = [Route("/", endpoint)]
    app = Starlette(routes=[Mount("/m", routes=routes)] if mounted else routes, lifespan=lifespan_of(form, log, None, None, {"value": value, "number": number}))
    scope = {"type": "lifespan", "state": {}}

    def between(scope):
        for i in range(2):
            ch = Channel()
            drive_nested(app(http_scope("/m/" if mounted else "/", state=dict(scope["state"])), ch.receive, ch.send))
            S.check(ch.status == 200, "served")

    error = session(app, log, scope, between)
    S.check(error is None, "no error")
    S.check(len(seen) == 2 and S.And(*[S.And(S.eq(a, value), b == number) for a, b in seen]), "the yielded values in every request")
    S.check(blank(log)[-1] == ("send", "lifespan.shutdown.complete"), "complete")
    S.cover(form)


def drive_nested(coro):
    """Run a coroutine that does not suspend, within another one."""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    coro.close()
    raise RuntimeError("coroutine suspended")


def h_message(S):
    """The failure's text is reported whatever it is."""
    text = S.str("text", 1, S.q(3, 5), exclude="\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029", ranges=[(0, 0x10FFFF)])
    when = S.choice("when", ["up", "down"])
    form = S.choice("form", ["handlers"] + FORMS)
    exc = Boom(text)
    log = []
    if form == "handlers":
        h = handler(S.choice("kind", ["sync", "async"]), "h", log, exc)
        app = Starlette(on_startup=[h]) if when == "up" else Starlette(on_shutdown=[h])
    else:
        app = Starlette(lifespan=lifespan_of(form, log, exc if when == "up" else None, exc if when == "down" else None, None))
    error = session(app, log)
    S.check(error is exc, "re-raised")
    S.check(log[-2] == ("send", "lifespan.startup.failed" if when == "up" else "lifespan.shutdown.failed"), "reported")
    S.check(contains(S, log[-1][1], text), "with its text")
    S.cover(when)


def h_not_reported_twice(S):
    """The server's own failures are raised; a failed startup is never followed by complete."""
    log = []
    form = S.choice("form", ["handlers"] + FORMS)
    which = S.choice("which", ["lifespan.startup.complete", "lifespan.shutdown.complete"])
    if form == "handlers":
        app = Starlette(on_startup=[handler("sync", "up", log, None)], on_shutdown=[handler("async", "down", log, None)])
    else:
        app = Starlette(lifespan=lifespan_of(form, log, None, None, None))
    error = session(app, log, send_fails=which)
    S.check(isinstance(error, Boom) and str(error) == "send", "raised")
    types = [b for a, b in log if a == "send"]
    S.check(types[: types.index(which) + 1] == (["lifespan.startup.complete"] if "startup" in which else ["lifespan.startup.complete", "lifespan.shutdown.complete"]), "the messages up to it")
    S.check(log.count(("run", "up")) == 1 and log.count(("run", "down")) <= 1, "nothing runs twice")
    S.cover(which)


def h_cut(S):
    """Waiting for shutdown fails or is cancelled: a failed shutdown, never a failed startup."""
    log = []
    form = S.choice("form", ["handlers"] + FORMS)
    exc = S.choice("exc", [Boom("b"), Stop("s")])
    cls = S.choice("class", [Starlette, Router])
    if form == "handlers":
        app = cls(on_startup=[handler("sync", "up", log, None)], on_shutdown=[handler("async", "down", log, None)])
    else:
        app = cls(lifespan=lifespan_of(form, log, None, None, None))
    error = session(app, log, cut=exc)
    S.check(error is exc, "re-raised")
    S.check([b for a, b in log if a == "send"] == ["lifespan.startup.complete", "lifespan.shutdown.failed"], "the messages")
    S.check(str(exc) in log[-1][1], "with its text")
    S.check(log.count(("run", "up")) == 1 and log.count(("run", "down")) == (0 if form in ("context", "asyncgen", "gen") else 1), "cleaned up once")
    S.cover(form)


def h_swallow(S):
    """A lifespan context that handles what ends the wait for shutdown has shut down."""
    log = []
    form = S.choice("form", ["context", "asyncgen", "gen", "class"])
    exc = S.choice("exc", [Boom("b"), Stop("s")])
    handles = S.flag("handles")
    wanted = (Boom, Stop) if handles else (KeyError,)

    def up():
        log.append(("run", "up"))

    def down(e):
        log.append(("run", "down"))
        log.append(("handled", e))

    if form == "gen":

        def lifespan(app):
            up()
            try:
                yield
            except wanted as e:
                down(e)

    elif form == "class":

        class lifespan:
            def __init__(self, app):
                pass

            async def __aenter__(self):
                up()

            async def __aexit__(self, kind, e, traceback):
                if isinstance(e, wanted):
                    down(e)
                    return True

    else:

        async def lifespan(app):
            up()
            try:
                yield
            except wanted as e:
                down(e)

        if form == "context":
            lifespan = asynccontextmanager(lifespan)

    error = session(S.choice("class", [Starlette, Router])(lifespan=lifespan), log, cut=exc)
    types = [b for a, b in log if a == "send"]
    if handles:
        S.check(error is None and types == ["lifespan.startup.complete", "lifespan.shutdown.complete"], "complete")
        S.check([b for a, b in log if a == "handled"] == [exc] and log.count(("run", "up")) == 1, "the context gets the failure once")
        S.cover("handled")
    else:
        S.check(error is exc and types == ["lifespan.startup.complete", "lifespan.shutdown.failed"] and ("run", "down") not in log, "re-raised")
        S.cover("failed")


ASSUMPTIONS = [
    "the server copies the lifespan state into each request's scope, as ASGI says",
]
HARNESSES = [
    dict(name="h_handlers", covers=["complete", "up", "down"], bounds="<= 2 (thorough 3) startup and shutdown handlers of 4 kinds, any one failing with an Exception or BaseException; given or added; Starlette and Router; two sessions"),
    dict(name="h_forms", covers=["complete", "up", "down", "unsupported"], bounds="5 forms of lifespan x failure in startup/shutdown/none x state x server support; two sessions"),
    dict(name="h_state", covers=FORMS, bounds="every text of <= 3 characters and every integer as state; two requests; 5 forms; mounted or not"),
    dict(name="h_message", covers=["up", "down"], bounds="every failure text of 1-3 (thorough 5) characters, all of Unicode without line breaks; 6 forms"),
    dict(name="h_not_reported_twice", covers=["lifespan.startup.complete", "lifespan.shutdown.complete"], bounds="the server's send failing at either complete message; 6 forms"),
    dict(name="h_cut", covers=["handlers"] + FORMS, bounds="the wait for shutdown ending in an Exception or BaseException; 6 forms; Starlette and Router"),
    dict(name="h_swallow", covers=["handled", "failed"], bounds="4 forms of lifespan handling or not an Exception or BaseException that ends the wait for shutdown"),
]
