"""C24: background tasks run once, in order, after the response is sent."""
import asyncio
import functools
import os
import tempfile

from hlib import drive, http_scope, run

from starlette.applications import Starlette
from starlette.background import BackgroundTask, BackgroundTasks
from starlette.requests import Request
from starlette.responses import FileResponse, HTMLResponse, JSONResponse, RedirectResponse, Response, StreamingResponse
from starlette.routing import Route


class Boom(Exception):
    pass


class Callable:
    def __init__(self, f):
        self.f = f

    async def __call__(self, *a, **k):
        return await self.f(*a, **k)


def make(kind, log, fail):
    """A task function of some kind recording its arguments."""

    async def a(*args, **kwargs):
        log.append(("begin", args, kwargs))
        if fail:
            raise Boom
        await asyncio.sleep(0)
        log.append(("task", args, kwargs))

    def s(*args, **kwargs):
        log.append(("begin", args, kwargs))
        if fail:
            raise Boom
        log.append(("task", args, kwargs))
        return "ignored"

    if kind == "async":
        return a
    if kind == "sync":
        return s
    if kind == "async partial":
        return functools.partial(a)
    if kind == "sync partial":
        return functools.partial(s)
    return Callable(a)


KINDS = ["async", "sync", "async partial", "sync partial", "async callable"]


def args_of(S, i):
    x = S.int("x%d" % i)
    form = S.pick("args%d" % i, 0, 3)
    return [((), {}), ((x,), {}), ((), {"k": x}), ((x, "p"), {"func": x, "k": "q"} if i else {"k": x})][form]


def same_args(S, got, want):
    return S.And(
        len(got[0]) == len(want[0]),
        sorted(got[1]) == sorted(want[1]),
        *[S.eq(a, b) for a, b in zip(got[0], want[0])],
        *[S.eq(got[1][k], want[1][k]) for k in want[1] if k in got[1]],
    )


def verify(S, log, outcome, plan, n_before=None):
    """plan: [(args, fails)]; log: ("sent", final) and ("begin"/"task", ...)."""
    kinds = [e[0] for e in log]
    first = kinds.index("begin") if "begin" in kinds else len(kinds)
    S.check("sent" not in kinds[first:], "a message was sent after a task began")
    S.check(first > 0 and log[first - 1][1], "the final body message was not sent before the tasks")
    begun = [e for e in log if e[0] == "begin"]
    done = [e for e in log if e[0] == "task"]
    fails = [i for i, (a, f) in enumerate(plan) if f]
    expect = fails[0] + 1 if fails else len(plan)
    S.check(len(begun) == expect, "%d tasks began, not %d" % (len(begun), expect))
    S.check(len(done) == expect - (1 if fails else 0), "completed tasks")
    for e, (a, f) in zip(begun, plan):
        S.check(same_args(S, (e[1], e[2]), a), "arguments")
    if not fails:
        S.check(kinds[first:] == ["begin", "task"] * len(plan), "tasks overlap")
    S.check(outcome == ("Boom" if fails else "ok"), "outcome " + outcome)
    S.cover("failed" if fails else "ran")


async def attempt(app, scope, log):
    async def send(m):
        log.append(("sent", m["type"] == "http.response.body" and not m.get("more_body", False)))

    async def receive():
        await asyncio.Event().wait()

    try:
        await app(scope, receive, send)
        return "ok"
    except Boom:
        return "Boom"


def h_tasks(S):
    """Every list of tasks on a plain response."""
    log = []
    n = S.pick("n", 0, S.q(3, 4))
    plan, funcs = [], []
    how = S.choice("how", ["list", "add", "both"])
    for i in range(n):
        kind = S.choice("kind%d" % i, KINDS if i == 0 or S.thorough else KINDS[:2])
        fail = S.flag("fail%d" % i)
        a = args_of(S, 1) if i == 0 else ((i,), {"k": i})
        plan.append((a, fail))
        funcs.append(make(kind, log, fail))
    k = {"list": n, "add": 0, "both": n // 2}[how]
    given = [BackgroundTask(f, *a[0]) if "func" in a[1] else BackgroundTask(f, *a[0], **a[1]) for f, (a, _) in list(zip(funcs, plan))[:k]]
    for i in range(k):
        if "func" in plan[i][0][1]:
            plan[i] = ((plan[i][0][0], {}), plan[i][1])
    bt = BackgroundTasks(given if k else None)
    for i in range(k, n):
        if "func" in plan[i][0][1]:
            plan[i] = ((plan[i][0][0], {}), plan[i][1])
        bt.add_task(funcs[i], *plan[i][0][0], **plan[i][0][1])
    if how == "list" and n:
        given.append(BackgroundTask(funcs[0]))  # the list belongs to the caller
    out = run(attempt(Response(b"x", background=bt), http_scope(), log))
    verify(S, log, out, plan)
    S.cover(how)


def build(S, kind, bg, path, **kw):
    if kind == "plain":
        return Response(b"x", background=bg, **kw)
    if kind == "html":
        return HTMLResponse("x", background=bg, **kw)
    if kind == "json":
        return JSONResponse({}, background=bg, **kw)
    if kind == "redirect":
        return RedirectResponse("/", background=bg, **kw)
    if kind == "stream":
        return StreamingResponse(iter([b"a", b"b"]), background=bg, **kw)
    if kind == "astream":

        async def gen():
            yield b"a"

        return StreamingResponse(gen(), background=bg, **kw)
    return FileResponse(path, background=bg, **kw)


RESPONSES = ["plain", "html", "json", "redirect", "stream", "astream", "file"]


def h_responses(S):
    """Every kind of response, alone or from an endpoint, one task or several."""
    kind = S.choice("response", RESPONSES)
    where = S.choice("where", ["app", "endpoint", "sync endpoint"])
    several = S.flag("several")
    version = S.choice("version", ["2.3", "2.4"])
    rng = S.choice("range", [None, b"bytes=0-1", b"bytes=0-0,2-2"]) if kind == "file" else None
    head = S.flag("head") if kind == "file" else False
    kinds = [S.choice("task%d" % i, KINDS[:2]) for i in range(2 if several else 1)]
    fails = [S.flag("fail%d" % i) for i in range(len(kinds))]
    log = []
    d = tempfile.mkdtemp()
    path = os.path.join(d, "f.txt")
    try:
        with open(path, "wb") as f:
            f.write(b"content")
        tasks = [BackgroundTask(make(k, log, f), i) for i, (k, f) in enumerate(zip(kinds, fails))]
        resp = build(S, kind, BackgroundTasks(tasks) if several else tasks[0], path)
        app = resp
        if where == "endpoint":

            async def endpoint(request):
                return resp

            app = Starlette(routes=[Route("/", endpoint)])
        elif where == "sync endpoint":

            def endpoint(request):
                return resp

            app = Starlette(routes=[Route("/", endpoint)])
        scope = http_scope(method="HEAD" if head else "GET", headers=[(b"range", rng)] if rng else [], asgi={"spec_version": version})
        out = run(attempt(app, scope, log))
    finally:
        os.unlink(path)
        os.rmdir(d)
    verify(S, log, out, [(((i,), {}), f) for i, f in enumerate(fails)])
    S.cover(kind)
    if rng:
        S.cover("range")


def h_status(S):
    """The status of the response does not matter."""
    kind = S.choice("response", RESPONSES)
    status = S.int("status", 200, 599)
    head = S.flag("head")
    inside = S.flag("in an application")
    log = []
    d = tempfile.mkdtemp()
    path = os.path.join(d, "f.txt")
    try:
        with open(path, "wb") as f:
            f.write(b"content")
        app = resp = build(S, kind, BackgroundTask(make("async", log, False), 1), path, status_code=status)
        if inside:

            async def endpoint(request):
                return resp

            app = Starlette(routes=[Route("/", endpoint)])
        out = run(attempt(app, http_scope(method="HEAD" if head else "GET", asgi={"spec_version": "2.4"}), log))
    finally:
        os.unlink(path)
        os.rmdir(d)
    verify(S, log, out, [(((1,), {}), False)])
    S.cover(kind)


def h_again(S):
    """A response sent twice runs its tasks once per send; tasks added before the send count."""
    log = []
    bt = BackgroundTasks()
    kinds = [S.choice("kind%d" % i, KINDS[:2]) for i in range(2)]
    resp = Response(b"x", background=bt)
    bt.add_task(make(kinds[0], log, False), 0)
    times = S.pick("times", 1, 2)
    for t in range(times):
        if t == 1:
            bt.add_task(make(kinds[1], log, False), 1)
        S.check(run(attempt(resp, http_scope(), log)) == "ok", "outcome")
    S.check([e[1] for e in log if e[0] == "task"] == [(0,)] + [(0,), (1,)] * (times - 1), "tasks of each send")
    S.cover("again")


def h_nested(S):
    """Tasks added by a running task run after the others."""
    log = []
    bt = BackgroundTasks()
    n = S.pick("n", 1, 2)
    adds = [S.pick("adds%d" % i, 0, 2) for i in range(n)]
    kinds = [S.choice("kind%d" % i, KINDS[:2]) for i in range(n)]
    x = S.int("x")

    def task(i):
        def body():
            log.append((i, None))
            for j in range(adds[i]):
                bt.add_task(late, 10 * i + j, x=x)

        async def abody():
            body()

        return body if kinds[i] == "sync" else abody

    async def late(number, x):
        log.append((number, x))

    for i in range(n):
        bt.add_task(task(i))
    S.check(run(attempt(Response(b"x", background=bt), http_scope(), [])) == "ok", "outcome")
    want = [(i, None) for i in range(n)] + [(10 * i + j, x) for i in range(n) for j in range(adds[i])]
    S.check([e[0] for e in log] == [e[0] for e in want] and S.And(*[True if b[1] is None else S.eq(a[1], b[1]) for a, b in zip(log, want)]), "each task once, in the order added")
    S.cover("late" if sum(adds) else "none")


def h_large(S):
    """Many tasks."""
    log = []
    n = 130
    at = S.choice("failing", [None, 0, n // 2, n - 1])
    x = S.int("x")
    plan, funcs = [], []
    for i in range(n):
        plan.append((((x, i), {"k": i}), i == at))
        funcs.append(make("sync" if i % 5 == 0 else "async", log, i == at))
    bt = BackgroundTasks([BackgroundTask(f, *a[0], **a[1]) for f, (a, _) in list(zip(funcs, plan))[:60]])
    for f, (a, _) in list(zip(funcs, plan))[60:]:
        bt.add_task(f, *a[0], **a[1])
    out = run(attempt(Response(b"x", background=bt), http_scope(), log))
    verify(S, log, out, plan)


ASSUMPTIONS = ["synchronous tasks run in place of a worker thread", "requests whose Range header is refused are answered by another response and not covered"]
HARNESSES = [
    dict(name="h_tasks", covers=["ran", "failed", "list", "add", "both"], bounds="<= 3 (thorough 4) tasks, the first of 5 kinds, others sync or async (all 5), any of them failing, 4 argument forms with any integers, given as a list or added"),
    dict(name="h_responses", covers=RESPONSES + ["ran", "failed", "range"], bounds="7 kinds of response x direct, async and sync endpoint x one or two tasks of either kind, any failing x 2 ASGI versions x ranges and HEAD for files"),
    dict(name="h_status", covers=RESPONSES, bounds="7 kinds of response with every status 200..599, GET or HEAD, direct or from an endpoint"),
    dict(name="h_again", covers=["again"], bounds="one or two sends, tasks added in between"),
    dict(name="h_nested", covers=["late", "none"], bounds="one or two tasks of either kind, each adding 0-2 tasks while it runs, any argument"),
    dict(name="h_large", covers=["ran", "failed"], bounds="130 tasks, none or one of three failing; any integer argument"),
]
