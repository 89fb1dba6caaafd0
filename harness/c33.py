"""C33: compression is transparent."""
import gzip
import time

from hlib import Channel, call, drive, http_scope, ws_scope

from starlette.middleware.gzip import GZipMiddleware
from starlette.responses import Response, StreamingResponse

GZIP_TIME = 1700000000  # the time stamp in a gzip header
HEADER = bytes([0x1F, 0x8B, 8, 0]) + GZIP_TIME.to_bytes(4, "little") + bytes([2, 255])


class App:
    def __init__(self, messages):
        self.messages = messages

    async def __call__(self, scope, receive, send):
        for m in self.messages:
            await send(dict(m))


def serve(app, ae, schedule=(), minimum=0, level=9, client=True, mw=None):
    gzip.SCHEDULE = schedule
    real = time.time
    time.time = lambda: GZIP_TIME
    try:
        mw = mw or GZipMiddleware(app, minimum_size=minimum, compresslevel=level)
        return call(mw, http_scope("/", headers=[(b"accept", b"*")] + ([(b"accept-encoding", ae.encode())] if ae is not None else [])))
    finally:
        time.time = real


def names(values):
    return [t.strip().lower() for v in values for t in v.decode("latin-1").split(",")]


def joined(msgs):
    out = b""
    for m in msgs:
        if m["type"] == "http.response.body":
            out = out + m.get("body", b"")
    return out


def judge(S, msgs, ch, may, must, minimum):
    """may, must: the client accepts gzip (in every, in some reading of its header)."""
    sent = ch.sent
    S.check([m["type"] for m in sent] == [m["type"] for m in msgs], "messages and their order")
    i = [m["type"] for m in msgs].index("http.response.start")
    app_h, out_h = msgs[i].get("headers", []), sent[i].get("headers", [])
    S.check(S.eq(sent[i]["status"], msgs[i]["status"]), "status")
    touched = (b"content-encoding", b"content-length", b"vary")
    S.check([h for h in out_h if h[0] not in touched] == [h for h in app_h if h[0] not in touched], "other headers")
    bodies = [m for m in msgs if m["type"] == "http.response.body"]
    other = [k for k, m in enumerate(msgs) if m["type"] not in ("http.response.start", "http.response.body")]
    blocked = any(k > i and (not bodies or k < msgs.index(bodies[0])) for k in other)
    for k in other:
        S.check(sent[k] == msgs[k], "other messages")
    before = dict(app_h)
    encoded = b"content-encoding" in before
    events = before.get(b"content-type", b"").startswith(b"text/event-stream")
    small = S.And(len(bodies) < 2, len(joined(bodies[:1])) < minimum)
    fixed = S.Or(encoded, events, blocked, not bodies, small)
    ce = [v for k, v in out_h if k == b"content-encoding"]
    cl = [v for k, v in out_h if k == b"content-length"]
    vary = names([v for k, v in out_h if k == b"vary"])
    for t in names([v for k, v in app_h if k == b"vary"]):
        S.check(t in vary, "the application's Vary")
    for a, b in zip(msgs, sent):
        S.check(a.get("more_body", False) == b.get("more_body", False), "more_body")
    if ce and not encoded:
        S.check(may, "compressed for a client that does not accept gzip")
        S.check(S.Not(fixed), "compressed although it should be left alone")
        S.check(ce == [b"gzip"], "Content-Encoding")
        try:
            plain = gzip.decompress(ch.body)
        except (EOFError, OSError):
            plain = None
        S.check(plain is not None and S.eq(plain, joined(msgs)), "the decompressed body is the application's")
        S.check("accept-encoding" in vary, "Vary")
        S.check(cl == [] or cl == [str(len(ch.body)).encode()], "Content-Length of the compressed body")
        S.cover("compressed")
    else:
        S.check(S.Or(S.Not(must), fixed), "not compressed although the client accepts gzip")
        S.check(ce == [v for k, v in app_h if k == b"content-encoding"], "Content-Encoding of an uncompressed body")
        S.check(cl == [v for k, v in app_h if k == b"content-length"], "Content-Length of an uncompressed body")
        S.check(S.eq([m.get("body", b"") for m in sent], [m.get("body", b"") for m in msgs]), "uncompressed body")
        S.check(S.Or(fixed, "accept-encoding" in vary), "Vary of a body that may be compressed")
        S.cover("plain")


def messages(S, sizes, headers, status=200):
    out = [{"type": "http.response.start", "status": status, "headers": headers}]
    for i, n in enumerate(sizes):
        m = {"type": "http.response.body"}
        if n or S.flag("empty%d" % i):
            m["body"] = S.bytes("b%d" % i, n, n)
        if i < len(sizes) - 1:
            m["more_body"] = True
        elif S.flag("last"):
            m["more_body"] = False
        out.append(m)
    return out


def h_chunks(S):
    """Every body in every chunking, whenever the compressor puts out data."""
    sizes = [S.pick("n%d" % i, 0, S.q(2, 3)) for i in range(S.pick("chunks", 1, 3))]
    schedule = [i for i in range(len(sizes)) if S.flag("flush%d" % i)]
    headers = [(b"content-type", b"text/plain"), (b"x", b"y")]
    if S.flag("length"):
        headers.append((b"content-length", str(sum(sizes)).encode()))
    msgs = messages(S, sizes, headers, S.int("status", 200, 599))
    minimum = S.int("min", 0, S.q(3, 4))
    accept = S.flag("accept")
    ch = serve(App(msgs), "gzip" if accept else "br", schedule, minimum, S.choice("level", [9, 1, 5]) if S.thorough else 9)
    judge(S, msgs, ch, accept, accept, minimum)


def h_headers(S):
    """Responses to leave alone, and headers to keep."""
    headers = [(b"x", b"1"), (b"content-type", S.choice("type", [b"text/html", b"text/event-stream", b"text/event-stream; charset=utf-8", b"text/events"])), (b"x", b"2")]
    ce = S.choice("ce", [None, b"br", b"gzip", b"identity"])
    if ce:
        headers.append((b"content-encoding", ce))
    for v in S.choice("vary", [[], [b"Accept"], [b"X-Accept-Encoding", b"Cookie"], [b"Accept-Encoding"]]):
        headers.append((b"vary", v))
    sizes = S.choice("sizes", [[3], [0], [1, 2], [0, 1], [3, 0]])
    if S.flag("length"):
        headers.append((b"content-length", str(sum(sizes)).encode()))
    if S.flag("reverse"):
        headers = headers[::-1]
    msgs = messages(S, sizes, headers)
    if S.flag("bare"):
        del msgs[0]["headers"]
    minimum = S.choice("min", [0, 2, 4])
    accept = S.flag("accept")
    ch = serve(App(msgs), "gzip" if accept else None, (), minimum)
    judge(S, msgs, ch, accept, accept, minimum)


def h_accept(S):
    """Every Accept-Encoding."""
    text, hits, stars = "", [], []
    for i in range(S.pick("n", 0, S.q(2, 3))):
        coding = S.choice("c%d" % i, ["gzip", "br", "*", "GZip", "gzipx", "agzip", "x-gzip", "free"] if i == 0 or S.thorough else ["gzip", "gzipx", "*"])
        if coding == "free":
            coding = S.str("f%d" % i, 0, 2, alphabet="gzipx-*;q=0")
            S.assume(S.Not(S.Or(*[c == "*" for c in coding], *[c == ";" for c in coding])))
        param = S.choice("p%d" % i, ["", ";q=", "; q=", ";Q=0", ";q=1"] if i == 0 else ["", ";q="])
        q = param
        if param.endswith("="):
            q = param + S.choice("q%d" % i, ["0", "0.", "0.0", "0.000"]) if S.flag("zero%d" % i) else param + "0." + S.str("d%d" % i, 1, S.q(1, 3), alphabet="0123456789")
        weight = q.lower().replace(" ", "")[3:]
        if weight == "":
            weight = "1"
        positive = S.Or(*[S.And(ord(c) >= 49, ord(c) <= 57) for c in weight])
        if len(coding) in (4, 6) and coding.lower() in ("gzip", "x-gzip"):
            hits.append((coding == "gzip", positive))
        elif coding == "*":
            stars.append(positive)
        text = text + (S.choice("sep%d" % i, [",", ", "]) if i else "") + coding + S.choice("sp%d" % i, ["", " "] if i == 0 else [""]) + q
    may = S.Or(*[p for _, p in hits], *([] if hits else stars))
    must = len(hits) == 1 and S.And(*hits[0])
    headers = [(b"content-type", b"text/plain")]
    msgs = messages(S, [2], headers)
    ch = serve(App(msgs), text, (), 1)
    judge(S, msgs, ch, may, must, 1)


def h_header_bytes(S):
    """A first chunk of the size of a gzip header, and one that is one."""
    first = S.bytes("first", 10, 10) if S.flag("any") else HEADER
    rest = S.bytes("rest", 0, 2)
    msgs = [{"type": "http.response.start", "status": 200, "headers": []}, {"type": "http.response.body", "body": first, "more_body": True}, {"type": "http.response.body", "body": rest}]
    ch = serve(App(msgs), "gzip", [0] if S.flag("flush") else [])
    judge(S, msgs, ch, True, True, 0)


EXTRA = {
    "debug": {"type": "http.response.debug", "info": {"a": 1}},
    "push": {"type": "http.response.push", "path": "/x", "headers": []},
    "trailers": {"type": "http.response.trailers", "headers": [], "more_trailers": False},
    "path": {"type": "http.response.pathsend", "path": "/x"},
}


def h_extensions(S):
    """Messages of ASGI extensions are forwarded in order."""
    sizes = S.choice("sizes", [[2], [1, 1], [0]])
    msgs = messages(S, sizes, [(b"content-type", b"text/plain")])
    kind = S.choice("kind", ["debug", "push", "trailers", "path"])
    if kind == "path":
        msgs = [msgs[0], EXTRA["path"]]
    else:
        at = len(msgs) if kind == "trailers" else S.pick("at", 0, len(msgs))
        msgs.insert(at, EXTRA[kind])
    accept = S.flag("accept")
    minimum = S.choice("min", [0, 3])
    ch = serve(App(msgs), "gzip" if accept else "br", (), minimum)
    judge(S, msgs, ch, accept, accept, minimum)
    S.cover(kind)


def h_reuse(S):
    """The same response object sent to several clients in turn."""
    kind = S.choice("kind", ["response", "messages", "fresh"])
    size = 3
    content = S.bytes("content", size, size)
    same = Response(content, media_type="text/plain", headers={"vary": "Cookie"} if S.flag("vary") else None)
    headers = [(b"content-type", b"text/plain")]
    stream = [{"type": "http.response.start", "status": 200, "headers": headers}, {"type": "http.response.body", "body": content[:1], "more_body": True}, {"type": "http.response.body", "body": content[1:]}]
    bases = list(same.raw_headers)
    if kind == "fresh":
        async def app(scope, receive, send):
            await StreamingResponse(iter([content[:1], content[1:]]), media_type="text/css")(scope, receive, send)

        one = [{"type": "http.response.start", "status": 200, "headers": [(b"content-type", b"text/css; charset=utf-8")]}, {"type": "http.response.body", "body": content[:1], "more_body": True}, {"type": "http.response.body", "body": content[1:], "more_body": True}, {"type": "http.response.body", "body": b"", "more_body": False}]
    elif kind == "response":
        app = same
        one = [{"type": "http.response.start", "status": 200, "headers": bases}, {"type": "http.response.body", "body": content}]
    else:
        app = App(stream)
        one = [dict(stream[0], headers=list(headers))] + stream[1:]
    mw = GZipMiddleware(app, minimum_size=S.choice("min", [0, 2]))
    if kind == "fresh" and S.symbolic is False:
        pass
    for i in range(S.q(2, 3)):
        accept = S.flag("accept%d" % i)
        ch = serve(app, "gzip" if accept else None, mw=mw) if kind != "fresh" else fresh(mw, accept)
        judge(S, one, ch, accept, accept, 0)
    S.cover(kind)


def fresh(mw, accept):
    ch = Channel()
    time_real = time.time
    gzip.SCHEDULE = ()
    from hlib import run

    async def receive():
        import asyncio

        if ch.pos:
            await asyncio.Event().wait()
        ch.pos = 1
        return {"type": "http.request", "body": b"", "more_body": False}

    run(mw(http_scope("/", headers=[(b"accept-encoding", b"gzip")] if accept else []), receive, ch.send))
    return ch


def h_other(S):
    """Connections other than http pass."""
    seen = []

    async def app(scope, receive, send):
        seen.append((scope, receive, send))

    scope = S.choice("scope", [ws_scope("/", headers=[(b"accept-encoding", b"gzip")]), {"type": "lifespan"}])
    ch = Channel([])
    rec, snd = ch.receive, ch.send
    drive(GZipMiddleware(app)(scope, rec, snd))
    S.check(seen == [(scope, rec, snd)], "connection types other than http")
    S.cover(scope["type"])


def h_large(S):
    """Responses of many chunks or large ones."""
    b = S.bytes("b", 1, 1)
    kind = S.choice("kind", ["many", "large", "one", "limit"])
    bodies = {"many": [b"%d." % i for i in range(130)], "large": [b"x" * 33000, b"y" * 66000, b""], "one": [], "limit": [b"x" * 499]}[kind]
    if kind == "one":
        bodies = [b + b"z" * 33000]
    elif kind == "limit":
        bodies = [bodies[0] + b * S.pick("more", 0, 2)]
    else:
        bodies.insert(S.choice("at", [0, len(bodies)]), b)
    headers = [(b"x-%d" % (i % 100), b"%d" % i) for i in range(130)] + [(b"content-length", str(sum(len(x) for x in bodies)).encode())]
    if S.flag("reverse"):
        headers = headers[::-1]
    msgs = [{"type": "http.response.start", "status": 200, "headers": headers}]
    msgs += [{"type": "http.response.body", "body": x, "more_body": i + 1 < len(bodies)} for i, x in enumerate(bodies)]
    accept = S.flag("accept")
    minimum = S.choice("minimum", [0, 500])
    ch = serve(App(msgs), "deflate, br;q=0.9, gzip;q=0.8" if accept else "deflate, br", [1, 64, 129] if S.flag("flush") else [], minimum)
    judge(S, msgs, ch, accept, accept, minimum)


ASSUMPTIONS = [
    "deflate is an invertible stand-in that puts out data at any write or at the end; native replay uses the real gzip",
    "responses are complete (a body or pathsend message follows the start); content types of server-sent events begin with text/event-stream",
    "a response whose headers have to go out before its body is seen (an extension message in between) is left uncompressed",
]
HARNESSES = [
    dict(name="h_chunks", covers=["compressed", "plain"], bounds="1..3 chunks of <= 2 (thorough 3) arbitrary bytes, body key present or not, every flush schedule of the compressor, every minimum size <= 3 (4), with and without content-length, every status, accepting or not"),
    dict(name="h_headers", covers=["compressed", "plain"], bounds="4 content types x 4 content encodings x 4 Vary headers x both orders x 5 chunkings x 3 minimum sizes, or no headers at all"),
    dict(name="h_accept", covers=["compressed", "plain"], bounds="lists of <= 2 (3) codings from 8 kinds (later ones from 3, or 8) x weights incl. every zero and every one-digit (three-digit) fraction x paddings"),
    dict(name="h_header_bytes", covers=["compressed"], bounds="first chunks of 10 arbitrary bytes, incl. the gzip header itself, then <= 2 bytes"),
    dict(name="h_extensions", covers=["compressed", "plain", "debug", "push", "trailers", "path"], bounds="4 extension messages at every position of 3 responses"),
    dict(name="h_reuse", covers=["response", "messages", "fresh", "compressed", "plain"], bounds="2 (3) requests, each accepting gzip or not, to one Response object, one header list, or streaming responses"),
    dict(name="h_other", covers=["websocket", "lifespan"], bounds="websocket and lifespan connections"),
    dict(name="h_large", covers=["compressed", "plain"], bounds="131 chunks, chunks of 33000 and 66000 bytes, one body of 33001, bodies of 499..501 around the default minimum; 131 headers; any byte somewhere"),
]
