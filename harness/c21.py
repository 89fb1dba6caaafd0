"""C21: file responses send exactly the requested bytes and lengths."""
from hlib import call, http_scope
from vfile import VFile, multipart, number, only

from starlette.responses import FileResponse


def messages_ok(S, ch):
    """One start, then bodies of which only the last ends the response."""
    kinds = [m["type"] for m in ch.sent]
    S.check(kinds[0] == "http.response.start" and all(k == "http.response.body" for k in kinds[1:]) and len(kinds) > 1, "message types")
    more = [m.get("more_body", False) for m in ch.sent[1:]]
    S.check(S.And(*[m if i < len(more) - 1 else S.Not(m) for i, m in enumerate(more)]), "the response is not ended by its last message")


def make(vf, size, chunk, **kw):
    class R(FileResponse):
        chunk_size = chunk

    return R(vf.path, media_type="text/x", **kw)


def check_length(S, ch, total):
    """Content-Length announces exactly the bytes sent."""
    S.check(number(S, only(S, ch, b"content-length")) == total, "Content-Length is not the number of bytes sent")


def h_whole(S):
    """The whole file, for any size and chunk size."""
    real = S.flag("default chunk")
    reads = S.q(3, 5)
    if real:
        chunk = 64 * 1024
        size = S.int("size", 0, reads * chunk)
    else:
        chunk = S.int("chunk", 1, 70)
        size = S.int("size", 0, 300)
        S.assume(size <= reads * chunk)
    head = S.flag("head")
    with VFile(S, size, reads + 2) as vf:
        ch = call(make(vf, size, chunk), http_scope(method=S.choice("method", ["HEAD", "head"]) if head else "GET"))
        messages_ok(S, ch)
        S.check(ch.status == 200, "status")
        r = vf.reader(ch.sent)
        total = r.length()
        S.check(number(S, only(S, ch, b"content-length")) == size, "Content-Length")
        S.check(ch.header(b"content-range") == [], "Content-Range on a whole file")
        if head:
            S.check(total == 0, "body for HEAD")
            S.cover("head")
        else:
            S.check(r.data(0, size), "the body is not the file")
            S.check(r.at_end(), "more than the file")
            S.cover("whole")
        S.check(all(f.closed for f in vf.opened), "file left open")


def h_single(S):
    """One range a-b inside the file."""
    chunk = S.int("chunk", 1, 64)
    size = S.int("size", 1, 120)
    a = S.str("a", 1, 2, alphabet="0123456789")
    form = S.choice("form", ["a-b", "a-", "-a"])
    if form == "a-b":
        b = S.str("b", 1, S.q(2, 3), alphabet="0123456789")
        start, last = int(a), int(b)
        S.assume(start <= last)
        last = S.If(last < size, last, size - 1)
        text = a + "-" + b
    elif form == "a-":
        start, last, text = int(a), size - 1, a + "-"
    else:
        n = int(a)
        S.assume(n > 0)
        start, last, text = S.If(n > size, 0, size - n), size - 1, "-" + a
    S.assume(start < size)
    reads = S.q(3, 4)
    S.assume(last - start < reads * chunk)
    head = S.flag("head")
    with VFile(S, size, reads + 2) as vf:
        ch = call(make(vf, size, chunk), http_scope(method="HEAD" if head else "GET", headers=[(b"range", b"bytes=" + text.encode())]))
        messages_ok(S, ch)
        S.check(ch.status == 206, "status")
        S.check(S.eq(only(S, ch, b"content-range"), ("bytes " + str(start) + "-" + str(last) + "/" + str(size)).encode()), "Content-Range")
        S.check(number(S, only(S, ch, b"content-length")) == last - start + 1, "Content-Length")
        r = vf.reader(ch.sent)
        if head:
            S.check(r.length() == 0, "body for HEAD")
            S.cover("head")
        else:
            S.check(r.data(start, last + 1), "the body is not the range")
            S.check(r.at_end(), "more than the range")
            S.cover("range")
        S.check(all(f.closed for f in vf.opened), "file left open")
        S.cover(form)


def h_multi(S):
    """Several separate ranges in a multipart body, in any order."""
    n = S.q(2, 3)
    size = S.int("size", 1, 130)
    chunk = S.int("chunk", 1, 64)
    ranges, text = [], ""
    order = S.choice("order", [[0, 1], [1, 0]] if n == 2 else [[0, 1, 2], [2, 1, 0], [1, 2, 0]])
    prev = -2
    texts = []
    for i in range(n):
        # one of the ends has a symbolic number of digits
        a = S.int("a%d" % i, 0, 120)
        b = S.int("b%d" % i, 0, 120)
        S.assume(S.And(prev + 1 < a, a <= b, b < size, b - a < 2 * chunk))
        prev = b
        ranges.append((a, b + 1))
        texts.append(str(a) + "-" + str(b))
    text = ",".join([texts[i] for i in order])
    head = S.flag("head")
    with VFile(S, size) as vf:
        ch = call(make(vf, size, chunk), http_scope(method="HEAD" if head else "GET", headers=[(b"range", b"bytes=" + text.encode())]))
        messages_ok(S, ch)
        S.check(ch.status == 206, "status")
        boundary, total, served = multipart(S, vf, ch, head)
        declared = number(S, only(S, ch, b"content-length"))
        if head:
            S.cover("head")
            return
        S.check(len(served) == n, "number of parts")
        S.check(S.And(*[S.And(x[0] == y[0], x[1] == y[1]) for x, y in zip(served, ranges)]), "parts")
        S.check(all(f.closed for f in vf.opened), "file left open")
        S.check(S.Or(declared == total, declared == total - 1), "Content-Length of a multipart response")
        S.cover("multi")
        S.check(declared == total, "[K1] Content-Length of a response with several ranges is one less than the bytes sent")


def h_head(S):
    """HEAD sends the headers of GET."""
    size = S.int("size", 1, 12)
    rng = S.choice("range", [None, b"bytes=0-0", b"bytes=1-,0-3", b"bytes=0-0,2-3", b"bytes=-1", b"bytes=x"])
    S.assume(size >= 4)
    with VFile(S, size) as vf:
        headers = [(b"range", rng)] if rng else []
        get = call(make(vf, size, 64), http_scope(headers=headers))
        head = call(make(vf, size, 64), http_scope(method="HEAD", headers=headers))
        S.check(get.status == head.status, "status of HEAD")
        g, h = dict(get.headers), dict(head.headers)
        for x in (g, h):
            if x.get(b"content-range", b"").startswith(b"multipart"):
                x[b"content-range"] = b"multipart"
        S.check(S.And(sorted(g) == sorted(h), *[S.eq(g[k], h[k]) for k in g if k in h]), "headers of HEAD")
        S.check(get.status == 400 or len(head.body) == 0, "body of HEAD")
        S.cover(str(get.status))


ASSUMPTIONS = [
    "anyio.open_file and os.stat are replaced by a file whose bytes are identified by their positions; a read returns as many bytes as asked for unless the file ends (replay: real files)",
    "a multipart body is in the documented layout, with line feeds and its boundary in Content-Range (as the existing tests fix it)",
    "the file does not change while it is sent",
]
HARNESSES = [
    dict(name="h_whole", covers=["whole", "head"], bounds="every size up to 3 (thorough 5) reads: chunk size 65536, or any chunk size 1..70 and size <= 300"),
    dict(name="h_single", covers=["range", "head", "a-b", "a-", "-a"], bounds="every range with bounds of <= 2 (3) digits in the 3 forms, every size 1..120, every chunk size 1..64 with <= 3 (4) reads"),
    dict(name="h_multi", covers=["multi", "head"], bounds="2 (3) separate ranges in 2 (3) orders at every position in 0..120, every size, every chunk size with <= 2 reads per range"),
    dict(name="h_head", covers=["200", "206", "400"], bounds="every size 4..12, 6 range headers"),
]
