"""C14: request bodies are the exact concatenation of received chunks."""
from hlib import Channel, call, drive, http_scope, outcome

from starlette.applications import Starlette
from starlette.requests import ClientDisconnect, Request
from starlette.responses import Response
from starlette.routing import Route


def script(S, n, size):
    """Client messages: chunks, then the final one or a disconnect; later ones must not be read."""
    msgs, chunks, end = [], [], "final"
    k = S.pick("chunks", 0, n)
    for i in range(k):
        m = {"type": "http.request", "more_body": True}
        if S.flag("has_body%d" % i):
            b = S.bytes("b%d" % i, 0, size)
            m["body"] = b
            chunks.append(b)
        else:
            chunks.append(b"")
        msgs.append(m)
    end = S.choice("end", ["final", "final-absent", "final-nobody", "disconnect"])
    if end == "disconnect":
        msgs.append({"type": "http.disconnect"})
    else:
        m = {"type": "http.request"}
        if end != "final-absent":
            m["more_body"] = False
        if end != "final-nobody":
            m["body"] = S.bytes("last", 0, size)
            chunks.append(m["body"])
        else:
            chunks.append(b"")
        msgs.append(m)
    later = S.choice("later", [[], [{"type": "http.request", "body": b"LATER", "more_body": False}]])
    return msgs + later, chunks, end != "disconnect"


def cat(parts):
    out = b""
    for p in parts:
        out = out + p
    return out


def h_reads(S):
    """Every order of reads against a model of the remaining chunks."""
    msgs, chunks, complete = script(S, S.q(2, 3), S.q(1, 2))
    ch = Channel(msgs)
    req = Request(http_scope(method="POST"), ch.receive)
    log = []

    async def whole_stream(req):
        out = []
        async for c in req.stream():
            out.append(c)
        return out

    async def first(req):
        async for c in req.stream():
            return [c]

    async def body(req):
        return await req.body()

    pos = 0  # chunks received
    cached = None
    gone = False
    for i in range(S.q(3, 4)):
        op = S.choice("op%d" % i, ["stream", "body", "one", "stop"])
        if op == "stop":
            break
        try:
            got = ("ok", drive({"stream": whole_stream, "body": body, "one": first}[op](req)))
        except ClientDisconnect:
            got = ("gone",)
        except RuntimeError:
            got = ("consumed",)
        if cached is not None:
            S.cover("cached")
            S.check(got[0] == "ok", "reading a cached body failed")
            if op == "body":
                S.check(S.eq(got[1], cached), "a repeated read gives another body")
            elif op == "stream":
                S.check(S.eq(cat(got[1]), cached), "streaming a cached body gives another body")
            else:
                S.check(S.eq(got[1][0], cached), "streaming a cached body gives another body")
            continue
        if complete and pos == len(chunks):
            S.cover("consumed")
            S.check(got[0] == "consumed", "a consumed stream was read again")
            continue
        rest = chunks[pos:]
        if op == "one":
            # the first chunk that is not empty, or the end, or the disconnect
            k = 0
            while k < len(rest) and len(rest[k]) == 0:
                k += 1
            if k < len(rest):
                S.check(got[0] == "ok" and S.eq(got[1], [rest[k]]), "the next chunk")
                pos += k + 1
            elif complete:
                S.check(got[0] == "ok" and got[1] == [b""], "the end of the stream")
                pos += k
            else:
                S.check(got[0] == "gone", "a disconnect was not reported")
                break
            S.check(ch.pos == pos, "receive called too often or too rarely")
            continue
        if not complete:
            S.cover("disconnect")
            S.check(got[0] == "gone", "a truncated body was delivered as complete")
            S.check(ch.pos == len(chunks) + 1, "receive called after the disconnect")
            break
        S.check(got[0] == "ok", "reading failed: " + got[0])
        if op == "body":
            S.check(S.eq(got[1], cat(rest)), "the body is not the concatenation of the chunks")
            cached = cat(rest)
            S.cover("body")
        else:
            S.check(len(got[1]) > 0 and len(got[1][-1]) == 0, "the stream does not end in an empty chunk")
            S.check(S.eq([c for c in got[1] if len(c)], [c for c in rest if len(c)]), "the stream's chunks are not the received ones")
            S.cover("stream")
        pos = len(chunks)
        S.check(ch.pos == len(chunks), "reading did not stop at the final message")


def h_endpoint(S):
    """Inside an application; the body read by an endpoint, twice."""
    msgs, chunks, complete = script(S, S.q(2, 3), S.q(1, 2))
    seen = []

    async def endpoint(request):
        try:
            if S.flag("stream"):
                out = b""
                async for c in request.stream():
                    out = out + c
                seen.append(out)
            else:
                seen.append(await request.body())
                seen.append(await request.body())
                out = b""
                async for c in request.stream():
                    out = out + c
                seen.append(out)
        except ClientDisconnect:
            seen.append("gone")
        return Response(b"done")

    app = Starlette(routes=[Route("/", endpoint, methods=["POST"])])
    ch = call(app, http_scope(method="POST"), msgs)
    S.check(ch.status == 200, "status")
    for x in seen:
        if complete:
            S.check(not isinstance(x, str) and S.eq(x, cat(chunks)), "body")
            S.cover("whole")
        else:
            S.check(isinstance(x, str) and x == "gone", "a truncated body was delivered as complete")
            S.cover("gone")
    S.check(len(seen) >= 1, "nothing read")


def h_large(S):
    """Many chunks, or a large one, around any short one."""
    many = S.flag("many")
    chunks = [b"%d." % i for i in range(S.q(130, 1030))] if many else [b"x" * 70000, b"y" * 1100000]
    at = S.choice("at", [0, len(chunks) // 2, len(chunks)])
    chunks.insert(at, S.bytes("b", 0, 2))
    msgs = [{"type": "http.request", "body": c, "more_body": i + 1 < len(chunks)} for i, c in enumerate(chunks)]
    req = Request(http_scope(method="POST"), Channel(msgs).receive)
    want = cat(chunks)
    if S.flag("stream"):

        async def read(req):
            out = []
            async for c in req.stream():
                out.append(c)
            return out

        got = drive(read(req))
        S.check(S.eq(cat(got), want), "chunks")
        S.cover("stream")
    else:
        S.check(S.eq(drive(req.body()), want) and S.eq(drive(req.body()), want), "body")
        S.cover("body")


ASSUMPTIONS = ["receive() answers at once; after a disconnect no further read is made; a stream iterated only in part leaves the chunks not yet received to the next read"]
HARNESSES = [
    dict(name="h_reads", covers=["stream", "body", "consumed", "cached", "disconnect"], bounds="<= 2 (thorough 3) chunks plus the final message or a disconnect, chunks of length <= 1 (2) or without body, optional fields absent or present, trailing messages, every sequence of <= 3 (4) reads among stream, first chunk, body"),
    dict(name="h_endpoint", covers=["whole", "gone"], bounds="the same messages, read in an application endpoint"),
    dict(name="h_large", covers=["stream", "body"], bounds="130 (thorough 1030) chunks, or chunks of 70000 and 1100000 bytes, around one of any <= 2 bytes"),
]
