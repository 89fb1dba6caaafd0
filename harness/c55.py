"""C55: work sent to worker threads runs once and its outcome comes back."""
import contextvars
import functools

from hlib import Channel, Workers, drive, http_scope, run_closed

from starlette.applications import Starlette
from starlette.background import BackgroundTask
from starlette.concurrency import iterate_in_threadpool, run_in_threadpool, run_until_first_complete
from starlette.endpoints import HTTPEndpoint
from starlette.responses import PlainTextResponse
from starlette.routing import Route

import warnings

warnings.simplefilter("ignore")

VAR = contextvars.ContextVar("VAR", default=None)


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


def h_pool(S):
    """Arguments go in, the result or error comes out."""
    a, b, c = S.int("a"), S.str("b", 0, 2), S.bool("c")
    exc = S.choice("exc", [None, Boom("b"), Stop("s"), KeyError("k")])
    extra = S.flag("extra")
    calls = []

    def work(*args, **kwargs):
        calls.append((args, kwargs, VAR.get(), w.depth > 0))
        if exc is not None:
            raise exc
        return (a, b)

    async def go():
        VAR.set("here")
        if extra:
            return await run_in_threadpool(work, a, b, flag=c, key=b)
        return await run_in_threadpool(work)

    got = error = None
    with Workers() as w:
        try:
            got = drive(go())
        except BaseException as e:
            if exc is None:
                raise
            error = e
    S.check(len(calls) == 1, "called once")
    want = ((a, b), {"flag": c, "key": b}) if extra else ((), {})
    S.check(S.eq(calls[0][0], want[0]) and S.eq(calls[0][1], want[1]), "the arguments")
    S.check(calls[0][2:] == ("here", True), "in a worker thread, with the caller's context")
    S.check(error is exc, "the error itself")
    if exc is None:
        S.check(S.eq(got, (a, b)), "the result")
    S.cover("error" if exc else "result")


def h_iterate(S):
    """Each item once, in order, no sooner than asked for."""
    n = S.pick("n", 0, S.q(3, 4))
    items = [S.choice("item%d" % i, [None, b"", 0, "x"]) for i in range(n)]
    form = S.choice("form", ["list", "generator", "iterator", "map"])
    exc = S.choice("exc", [None, Boom("b"), Stop("s"), RuntimeError("r")]) if form != "list" else None
    stop = S.pick("stop", 0, n + 1)
    taken = []

    def generator():
        for item in items:
            taken.append(w.depth > 0)
            yield item
        if exc is not None:
            raise exc

    class Iterator:
        i = 0

        def __iter__(self):
            return self

        def __next__(self):
            if self.i < len(items):
                self.i += 1
                taken.append(w.depth > 0)
                return items[self.i - 1]
            if exc is not None:
                raise exc
            raise StopIteration

    source = items if form == "list" else generator() if form == "generator" else Iterator() if form == "iterator" else map(lambda x: x, generator())
    got = []

    async def go():
        it = iterate_in_threadpool(source)
        if stop == 0:
            return
        async for x in it:
            got.append(x)
            if form != "list":
                S.check(len(taken) == len(got), "no sooner than asked for")
            if len(got) == stop:
                break
        await it.aclose()

    error = None
    with Workers() as w:
        try:
            drive(go())
        except (Boom, Stop, RuntimeError) as e:
            error = e
    S.check(len(got) == min(n, stop) and all(x is y for x, y in zip(got, items)), "the items in order")
    S.check(error is (exc if stop > n else None), "the error itself, at the end")
    S.check(all(taken), "in worker threads")
    S.cover("error" if error else "all" if stop > n else "some")


async def ticks(n):
    import asyncio

    for _ in range(n):
        await asyncio.sleep(0)


def h_first(S):
    """The first function to finish ends the others."""
    n = S.pick("n", 1, S.q(2, 3))
    log = []
    waits, fails = [], []
    for i in range(n):
        waits.append(S.pick("wait%d" % i, 0, S.q(4, 6)))
        fails.append(S.flag("fails%d" % i))
    value = S.str("value", 0, 1)

    async def work(i, value):
        log.append(("start", i, value))
        try:
            await ticks(waits[i])
        except BaseException:
            log.append(("cancelled", i))
            raise
        if fails[i]:
            raise Boom(str(i))
        log.append(("end", i))

    async def go():
        await run_until_first_complete(*[(work, {"i": i, "value": value}) for i in range(n)])
        log.append(("done",))

    errors = []

    def leaves(e):
        if isinstance(e, Boom):
            errors.append(e)
        elif hasattr(e, "exceptions"):
            for x in e.exceptions:
                leaves(x)
        else:
            raise e

    try:
        run_closed(go())
    except BaseException as e:
        leaves(e)
    S.check(S.eq([x for x in log if x[0] == "start"], [("start", i, value) for i in range(n)]), "all are started with their arguments")
    ended = [x[1] for x in log if x[0] == "end"]
    cancelled = [x[1] for x in log if x[0] == "cancelled"]
    failed = [int(str(e)) for e in errors]
    S.check(sorted(ended + cancelled + failed) == list(range(n)), "each ends, fails or is cancelled")
    first = min(waits)
    for i in range(n):
        if waits[i] == first:
            # nothing cancels it earlier, except another one that is due at the same time
            S.check(i in (failed if fails[i] else ended) or waits.count(first) > 1, "the first one finishes")
        if waits[i] > first + 2:
            S.check(i in cancelled, "a late one is cancelled")
            S.cover("cancelled")
    S.check(bool(failed) or ("done",) in log, "returns")
    S.check(not failed or ("done",) not in log, "errors are raised")
    S.cover("failed" if failed else "ended")


def h_where(S):
    """Synchronous functions run in a worker thread, asynchronous ones in the event loop; once each."""
    log = []
    kind = S.choice("kind", ["plain", "partial", "partial2", "callable"])
    waits = S.flag("async")
    where = S.choice("where", ["endpoint", "class", "task", "handler", "error"])
    S.assume(kind != "callable" or where not in ("endpoint", "class"))
    value = S.str("value", 0, 2)

    def make(result):
        def act(*args):
            log.append(w.depth > 0)
            return result

        async def aact(*args):
            return act(*args)

        f = aact if waits else act
        if kind == "plain":
            return f
        if kind == "partial":
            return functools.partial(f, value)
        if kind == "partial2":
            return functools.partial(functools.partial(f, value), value)
        if waits:

            class Callable:
                async def __call__(self, *args):
                    return act(*args)

        else:

            class Callable:
                def __call__(self, *args):
                    return act(*args)

        return Callable()

    if where == "endpoint":
        app = Starlette(routes=[Route("/", make(PlainTextResponse("ok")))])
    elif where == "class":
        S.assume(kind == "plain")
        f = make(PlainTextResponse("ok"))
        if waits:

            class E(HTTPEndpoint):
                async def get(self, request):
                    return await f(request)

        else:

            class E(HTTPEndpoint):
                def get(self, request):
                    return f(request)

        app = Starlette(routes=[Route("/", E)])
    elif where == "task":

        async def endpoint(request):
            return PlainTextResponse("ok", background=BackgroundTask(make(None)))

        app = Starlette(routes=[Route("/", endpoint)])
    else:

        async def endpoint(request):
            raise Boom("b")

        app = Starlette(routes=[Route("/", endpoint)], exception_handlers={Boom if where == "handler" else Exception: make(PlainTextResponse("ok"))})
    ch = Channel()
    raised = None
    with Workers() as w:
        try:
            drive(app(http_scope("/"), ch.receive, ch.send))
        except Boom as e:
            raised = e
    S.check((raised is not None) == (where == "error"), "errors")
    S.check(ch.status == 200 and ch.body == b"ok", "the response")
    S.check(log == [not waits], "run once, in the right place")
    S.cover(where)
    S.cover(kind)


ASSUMPTIONS = ["worker threads run in place (native replay uses real threads)"]
HARNESSES = [
    dict(name="h_pool", covers=["error", "result"], bounds="every integer, text of <= 2 characters and boolean as argument and result; 3 kinds of error or none"),
    dict(name="h_iterate", covers=["error", "all", "some"], bounds="<= 3 (4) items of 4 kinds from a list, generator, iterator or map that may fail at its end; every number of items taken"),
    dict(name="h_first", covers=["cancelled", "failed", "ended"], bounds="1 or 2 (3) functions lasting 0-4 (6) turns of the loop, each failing or not; every text of <= 1 character as argument"),
    dict(name="h_where", covers=["endpoint", "class", "task", "handler", "error", "plain", "partial", "partial2", "callable"], bounds="4 forms of function, synchronous or not, in 5 places"),
]
