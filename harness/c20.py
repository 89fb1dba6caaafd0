"""C20: streaming responses send every chunk in order and stop on disconnect."""
import asyncio

from hlib import drive, http_scope, run

from starlette.background import BackgroundTask
from starlette.requests import ClientDisconnect
from starlette.responses import StreamingResponse


class Boom(Exception):
    pass


class Aiter:
    """An async iterable that is not a generator."""

    def __init__(self, chunks, fail, wait=None):
        self.chunks, self.fail, self.i, self.wait = chunks, fail, 0, wait

    def __aiter__(self):
        return self

    async def __anext__(self):
        if self.wait is not None and self.i < len(self.wait):
            await ticks(self.wait[self.i])
        if self.i == self.fail:
            raise Boom
        if self.i >= len(self.chunks):
            raise StopAsyncIteration
        self.i += 1
        return self.chunks[self.i - 1]


async def ticks(n):
    for _ in range(n):
        await asyncio.sleep(0)


def make_content(how, chunks, fail, wait=None):
    if how == "aiter":
        return Aiter(chunks, fail, wait)
    if how == "agen":

        async def agen():
            for i, c in enumerate(chunks):
                if wait is not None:
                    await ticks(wait[i])
                if i == fail:
                    raise Boom
                yield c
            if wait is not None:
                await ticks(wait[len(chunks)])
            if fail == len(chunks):
                raise Boom

        return agen()

    def gen():
        for i, c in enumerate(chunks):
            if i == fail:
                raise Boom
            yield c
        if fail == len(chunks):
            raise Boom

    if how == "gen":
        return gen()

    class Lazy:  # an iterable that is no iterator
        def __iter__(self):
            return gen()

    return list(chunks) if fail is None else Lazy()


def chunk(S, i, size):
    kind = S.choice("kind%d" % i, ["bytes", "str", "memoryview"])
    if kind == "bytes":
        c = S.bytes("c%d" % i, 0, size)
        return c, c
    if kind == "memoryview":
        return memoryview(b"m%d" % i), b"m%d" % i
    c = S.str("c%d" % i, 0, size)
    return c, c.encode("utf-8")


def legal(S, sent, chunks, status, headers):
    """The messages are a prefix of: start, one per chunk, terminator."""
    if not sent:
        return True
    ok = [sent[0]["type"] == "http.response.start", S.eq(sent[0]["status"], status), S.eq([tuple(h) for h in sent[0]["headers"]], headers)]
    for i, m in enumerate(sent[1:]):
        ok.append(m["type"] == "http.response.body")
        if i < len(chunks):
            ok.append(m.get("more_body", False) is True)
            body = m["body"]
            ok.append(bytes(body) == chunks[i] if isinstance(body, memoryview) else S.eq(body, chunks[i]))
        elif i == len(chunks):
            ok.append(not m.get("more_body", False) and len(m.get("body", b"")) == 0)
        else:
            ok.append(False)
    return S.And(*ok)


def finished(sent):
    return len(sent) > 0 and sent[-1]["type"] == "http.response.body" and not sent[-1].get("more_body", False)


VERSIONS = ["2.0", "2.3", "2.4", "2.5", "2.10", "3.0", None]


def scope_of(version):
    asgi = {"version": "3.0"}
    if version is not None:
        asgi["spec_version"] = version
    return http_scope(asgi=asgi)


def modern(version):
    return version in ("2.4", "2.5", "2.10", "3.0")


def h_faults(S):
    """Every chunk list; the iterator or a send may fail at any point; no disconnect message."""
    n = S.pick("n", 0, S.q(2, 3))
    pairs = [chunk(S, i, S.q(1, 2)) for i in range(n)]
    how = S.choice("how", ["aiter", "agen", "gen", "list"])
    version = S.choice("version", VERSIONS if S.thorough else ["2.3", "2.10", None])
    fault = S.choice("fault", ["none", "iterator", "oserror", "other"])
    at = S.pick("at", 0, n + 1) if fault != "none" else None
    status = S.int("status", 100, 599)
    hval = S.str("hval", 0, 1, ranges=[(0, 255)])
    if fault == "iterator" and at > n:
        return
    sent, log = [], []

    async def send(m):
        if fault in ("oserror", "other") and len(log) == at:
            log.append("failed")
            raise (OSError() if fault == "oserror" else Boom())
        log.append("sent")
        sent.append(m)

    async def receive():
        await asyncio.Event().wait()

    async def task():
        log.append("background")

    r = StreamingResponse(
        make_content(how, [a for a, b in pairs], at if fault == "iterator" else None),
        status_code=status,
        headers={"X-H": hval},
        media_type="text/plain",
        background=BackgroundTask(task),
    )

    async def go():
        try:
            await r(scope_of(version), receive, send)
            return "ok"
        except Exception as e:
            return type(e).__name__

    got = run(go())
    wanted = [b for a, b in pairs]
    headers = [(b"x-h", hval.encode("latin-1")), (b"content-type", b"text/plain; charset=utf-8")]
    S.check(legal(S, sent, wanted, status, headers), "messages")
    if fault == "none":
        S.check(got == "ok", "raised " + got)
        S.check(len(sent) == n + 2, "not every chunk was sent")
        S.check(log == ["sent"] * (n + 2) + ["background"], "background task")
        S.cover("complete")
        return
    S.check(got == {"iterator": "Boom", "other": "Boom", "oserror": "ClientDisconnect" if modern(version) else "OSError"}[fault], "outcome " + got)
    S.check(not finished(sent), "a terminating message after a failure")
    S.check(len(sent) == (at + 1 if fault == "iterator" else at), "number of messages before the failure")
    S.check("background" not in log, "the background task ran after a failure")
    S.check(log[-1] == ("failed" if fault != "iterator" else "sent"), "activity after the failure")
    S.cover(fault)


def h_disconnect(S):
    """The client disconnects at any time relative to the chunks (servers before ASGI 2.4)."""
    n = S.pick("n", 0, S.q(2, 3))
    chunks = [b"c%d" % i for i in range(n)]
    how = S.choice("how", ["aiter", "agen"])
    wait = [S.pick("w%d" % i, 0, S.q(2, 3)) for i in range(n + 1)]
    when = S.pick("when", 0, S.q(6, 10))
    before = S.pick("before", 0, 1)
    slow = S.pick("slow", 0, 1)
    never_ends = S.flag("never ends")
    sent, log = [], []

    async def send(m):
        await ticks(slow)
        sent.append(m)
        log.append("sent")

    state = {"n": 0}

    async def receive():
        state["n"] += 1
        if state["n"] <= before:
            return {"type": "http.request", "body": b"", "more_body": False}
        await ticks(when)
        log.append("gone")
        return {"type": "http.disconnect"}

    async def task():
        log.append("background")

    async def endless():
        async for c in make_content(how, chunks, None, wait):
            yield c
        await asyncio.Event().wait()

    r = StreamingResponse(endless() if never_ends else make_content(how, chunks, None, wait), background=BackgroundTask(task))

    async def go():
        await r(scope_of(S_VERSION), receive, send)

    run(asyncio_timeout(go))
    S.check(legal(S, sent, chunks, 200, []), "messages")
    if "gone" in log:
        after = log[log.index("gone") + 1 :]
        # a response whose sends never suspend cannot be interrupted between them
        S.check(slow == 0 or after.count("sent") <= 1, "went on sending after the disconnect")
        S.cover("disconnected")
        if not finished(sent):
            S.cover("cut short")
    else:
        S.check(finished(sent) and len(sent) == n + 2, "a response without disconnect was not completed")
        S.cover("completed")
    S.check(not never_ends or not finished(sent), "a terminating message before the iterator ended")
    S.check(log.count("background") <= 1 and ("background" not in log or log[-1] == "background"), "background task")
    if finished(sent):
        S.check(log[-1] == "background", "the background task did not run")


S_VERSION = "2.3"


async def asyncio_timeout(go):
    await asyncio.wait_for(go(), 20)


def h_versions(S):
    """With a failed send the version decides how it is reported; every version completes otherwise."""
    version = S.choice("version", VERSIONS)
    fails = S.flag("fails")
    sent = []

    async def send(m):
        if fails and len(sent) == 2:
            raise OSError
        sent.append(m)

    async def receive():
        await asyncio.Event().wait()

    r = StreamingResponse(iter([b"a", "b"]))

    async def go():
        try:
            await r(scope_of(version), receive, send)
            return "ok"
        except Exception as e:
            return type(e).__name__

    got = run(go())
    S.check(legal(S, sent, [b"a", b"b"], 200, []), "messages")
    S.check(got == (("ClientDisconnect" if modern(version) else "OSError") if fails else "ok"), "outcome " + got)
    S.check(finished(sent) == (not fails), "termination")
    S.cover("modern" if modern(version) else "old")


def h_large(S):
    """Many chunks, or large ones, around any short one."""
    many = S.flag("many")
    chunks = [b"%d." % i for i in range(130)] if many else [b"x" * 70000, b"", b"y" * 1100000]
    at = S.choice("at", [0, len(chunks)])
    chunks.insert(at, S.bytes("b", 0, 2))
    how = S.choice("how", ["aiter", "agen", "gen", "list"])
    version = S.choice("version", ["2.0", "2.4"])
    response = StreamingResponse(make_content(how, chunks, None))
    sent = []

    async def send(message):
        sent.append(message)

    async def receive():
        await asyncio.Event().wait()

    run(response(scope_of(version), receive, send))
    S.check(len(sent) == len(chunks) + 2, "one message per chunk")
    S.check(legal(S, sent, chunks, 200, []), "chunks in order")
    S.check(finished(sent), "terminated")
    S.cover(how)


ASSUMPTIONS = [
    "a synchronous iterator runs in place of a worker thread",
    "schedules are those of one event loop: chunk production, sends and the disconnect are delayed by any number of loop iterations up to the bound",
    "one message may still be sent in the loop iteration in which the disconnect arrives; sends that never suspend are not interrupted",
]
HARNESSES = [
    dict(name="h_faults", covers=["complete", "iterator", "oserror", "other"], bounds="<= 2 (thorough 3) chunks of any bytes or text of length <= 1 (2) or memoryviews x 4 kinds of iterables x 3 (7) spec versions x failure of the iterator or of a send (OSError, other) at every position; any status, header value of length <= 1"),
    dict(name="h_disconnect", covers=["disconnected", "cut short", "completed"], bounds="<= 2 (3) chunks x every delay 0..2 (3) before each x disconnect after 0..6 (10) loop iterations x slow sends x iterator that never ends"),
    dict(name="h_versions", covers=["modern", "old"], bounds="7 spec versions x failing send"),
    dict(name="h_large", covers=["aiter", "agen", "gen", "list"], bounds="130 chunks, or chunks of 70000 and 1100000 bytes, around one of any <= 2 bytes"),
]
