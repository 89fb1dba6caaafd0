"""C17: multipart forms deliver every part intact whatever the chunking."""
from hlib import Channel, call, drive, http_scope

from starlette.applications import Starlette
from starlette.datastructures import UploadFile
from starlette.formparsers import MultiPartException, MultiPartParser
from starlette.requests import Request
from starlette.responses import Response
from starlette.routing import Route


def part(name, content, filename=None, headers=(), crlf=b"\r\n"):
    out = b'Content-Disposition: form-data; name="' + name + b'"'
    if filename is not None:
        out = out + b'; filename="' + filename + b'"'
    out = out + b"\r\n"
    for k, v in headers:
        out = out + k + b": " + v + b"\r\n"
    return out + b"\r\n" + content


def encode(parts, boundary, tail=b"--\r\n"):
    out = b""
    for p in parts:
        out = out + b"--" + boundary + b"\r\n" + p + b"\r\n"
    return out + b"--" + boundary + tail


def split(S, body, cuts, lo=0, hi=None):
    out = []
    at = lo
    prev = 0
    for i in range(cuts):
        k = S.pick("cut%d" % i, at, len(body) if hi is None else hi)
        out.append(body[prev:k])
        at = prev = k
    out.append(body[prev:])
    return [{"type": "http.request", "body": c, "more_body": i < len(out) - 1} for i, c in enumerate(out)]


def request(msgs, boundary=b"b", extra=b""):
    ch = Channel(msgs)
    return Request(http_scope(method="POST", headers=[(b"content-type", b"multipart/form-data; boundary=" + boundary + extra)]), ch.receive)


async def load(req):
    """The form's items with file contents read."""
    form = await req.form()
    out = []
    for k, v in form.multi_items():
        if isinstance(v, UploadFile):
            start = v.file.tell()
            data = await v.read()
            out.append(("file", k, v.filename, v.content_type, v.size, start, data, [(a, b) for a, b in v.headers.raw]))
        else:
            out.append(("field", k, v))
    await form.close()
    return out


def safe_text(b):
    try:
        return b.decode("utf-8")
    except UnicodeDecodeError:
        return b.decode("latin-1")


def is_field(S, item, name, content):
    return S.And(item[0] == "field", S.eq(item[1], safe_text(name)), S.eq(item[2], safe_text(content)))


def is_file(S, item, name, filename, content, headers):
    """headers: those of the part in order, names in lower case."""
    if item[0] != "file":
        return False
    ctype = [v for k, v in headers if k == b"content-type"]
    return S.And(
        S.eq(item[1], safe_text(name)),
        S.eq(item[2], safe_text(filename)),
        item[3] is None if not ctype else item[3] is not None and S.eq(item[3], ctype[0].decode("latin-1")),
        S.eq(item[4], len(content)),
        item[5] == 0,
        S.eq(item[6], content),
        S.eq(item[7], headers),
    )


def free_of(S, content, boundary):
    """The content does not hold the delimiter (it could not be sent with this boundary)."""
    delim = b"\r\n--" + boundary
    text = b"\r\n" + content + delim
    S.assume(S.And(*[S.Not(text[i:i + len(delim)] == delim) for i in range(len(content) + 2)]))


def body_bytes(S, name, boundary, n, alphabet=None):
    """Content that starts like the delimiter, then any bytes."""
    delim = b"\r\n--" + boundary
    k = S.pick(name + ".like", 0, len(delim))
    content = delim[:k] + S.bytes(name, 0, n, alphabet=alphabet)
    free_of(S, content, boundary)
    return content


def h_cut(S):
    """One part (field or file), cut anywhere from its first content byte on; content near the delimiter."""
    boundary = S.choice("boundary", [b"b", b"-b-"])
    content = body_bytes(S, "content", boundary, S.q(2, 3), alphabet=S.q(b"\r\n-bX", b"\r\n-bX\x80"))
    file = S.flag("file")
    headers = [(b"content-type", b"x/y")] if file else []
    p = part(b"n", content, b"f" if file else None, headers)
    body = encode([p], boundary)
    start = len(body) - len(encode([], boundary)) - 2 - len(content)
    req = request(split(S, body, 2, lo=start), boundary)
    out = drive(load(req))
    S.check(len(out) == 1, "not one part")
    if file:
        disp = b'form-data; name="n"; filename="f"'
        S.check(is_file(S, out[0], b"n", b"f", content, [(b"content-disposition", disp)] + headers), "file")
        S.cover("file")
    else:
        S.check(is_field(S, out[0], b"n", content), "field")
        S.cover("field")


def h_anycut(S):
    """Two parts, cut anywhere at all."""
    boundary = b"bd"
    c1 = S.bytes("c1", 0, S.q(1, 2), alphabet=b"\r\n-x")
    c2 = S.bytes("c2", 0, 1, alphabet=b"\n-x")
    kinds = S.choice("kinds", ["ff", "fF", "Ff", "FF"])
    ps = []
    want = []
    for i, k in enumerate(kinds):
        c = (c1, c2)[i]
        free_of(S, c, boundary)
        ps.append(part(b"n%d" % i, c, b"file" if k == "F" else None))
    req = request(split(S, encode(ps, boundary), S.q(1, 2)), boundary)
    out = drive(load(req))
    S.check(len(out) == 2, "not two parts")
    for i, k in enumerate(kinds):
        c = (c1, c2)[i]
        if k == "F":
            S.check(is_file(S, out[i], b"n%d" % i, b"file", c, [(b"content-disposition", b'form-data; name="n%d"; filename="file"' % i)]), "file %d" % i)
        else:
            S.check(is_field(S, out[i], b"n%d" % i, c), "field %d" % i)
    S.cover(kinds)


def h_content(S):
    """Any bytes as content, and any (quotable) names; small chunks and rolled-over files."""
    content = S.bytes("content", 0, S.q(3, 4))
    free_of(S, content, b"q")
    name = S.bytes("name", 0, 1, exclude=b'"\\\r\n\x00;')
    kind = S.choice("kind", ["field", "file", "rolled"])
    old = MultiPartParser.spool_max_size
    MultiPartParser.spool_max_size = 1 if kind == "rolled" else old
    try:
        body = encode([part(name, content, None if kind == "field" else name)], b"q")
        start = len(body) - len(encode([], b"q")) - 2 - len(content)
        out = drive(load(request(split(S, body, 1, lo=start, hi=start + len(content)), b"q")))
    finally:
        MultiPartParser.spool_max_size = old
    S.check(len(out) == 1, "not one part")
    if kind == "field":
        S.check(is_field(S, out[0], name, content), "field")
    else:
        disp = b'form-data; name="' + name + b'"; filename="' + name + b'"'
        S.check(is_file(S, out[0], name, name, content, [(b"content-disposition", disp)]), "file")
    S.cover(kind)


def h_parts(S):
    """Up to three (four) parts of any kind, in order; headers of each part are its own."""
    n = S.pick("n", 0, S.q(3, 4))
    ps, want = [], []
    for i in range(n):
        c = S.bytes("c%d" % i, S.q(1, 0), 1, alphabet=b"ab\r\n-")
        kind = S.choice("kind%d" % i, ["field", "field+", "file", "file+"])
        hs = []
        if kind == "field+":
            hs = [(b"Content-Type", b"text/plain")]
        if kind == "file+":
            hs = [(b"Content-TYPE", b"a/" + b"%d" % i), (b"X-One", b"1"), (b"x-one", b"2")]
        fn = None if kind[:5] == "field" else b"f%d" % i
        name = S.choice("name%d" % i, [b"same", b"n%d" % i])
        ps.append(part(name, c, fn, hs))
        want.append((name, c, fn, hs))
    body = encode(ps, b"zz", S.choice("tail", [b"--", b"--\r\n", b"--\r\nepilogue\r\n--zz\r\n"]))
    out = drive(load(request([{"type": "http.request", "body": body}], b"zz", S.choice("extra", [b"", b"; charset=utf-8"]))))
    S.check(len(out) == n, "number of parts")
    for i, (name, c, fn, hs) in enumerate(want):
        if fn is None:
            S.check(is_field(S, out[i], name, c), "field %d" % i)
        else:
            disp = b'form-data; name="' + name + b'"; filename="' + fn + b'"'
            S.check(is_file(S, out[i], name, fn, c, [(b"content-disposition", disp)] + [(k.lower(), v) for k, v in hs]), "file %d" % i)
    S.cover("parts%d" % n)


CHARSETS = [b"", b"; charset=utf-8", b"; charset=latin-1", b"; charset=us-ascii", b"; charset=nonsense", b"; charset=undefined"]


def h_charset(S):
    """Contents, names and file names are decoded by the declared charset, falling back to latin-1."""
    where = S.choice("where", ["content", "name", "filename", "file field"])
    charset = S.choice("charset", CHARSETS)
    wide = S.flag("two bytes")
    # two bytes may be one character of utf-8
    c = S.bytes("c", 2, 2, alphabet=S.q(b"a\xc3\xa9", b"aq\xc2\xc3\xdf\x80\xa9\xff")) if wide else S.bytes("c", 1, 1, exclude=b"" if where == "content" else b'"\\\r\n\x00;')
    p = {
        "content": lambda: part(b"n", c),
        "name": lambda: part(c, b"v"),
        "filename": lambda: part(b"n", b"v", c),
        "file field": lambda: part(c, b"v", b"f"),
    }[where]()
    out = drive(load(request([{"type": "http.request", "body": encode([p], b"q")}], b"q", charset)))
    want = safe_text(c) if charset in CHARSETS[:2] else c.decode("latin-1")
    S.check(len(out) == 1 and out[0][0] == ("field" if where in ("content", "name") else "file"), "one part")
    S.check(S.eq(out[0][1], want if where in ("name", "file field") else "n"), "decoded name")
    if where == "filename" or where == "file field":
        S.check(S.eq(out[0][2], want if where == "filename" else "f"), "decoded file name")
    else:
        S.check(S.eq(out[0][2], want if where == "content" else "v"), "decoded text")
    S.cover(where)


def outcome(msgs, header):
    """Through an application: the status and the items; any other exception escapes."""
    seen = []

    async def endpoint(request):
        form = await request.form()
        seen.append(len(form.multi_items()))
        await form.close()
        return Response(b"")

    app = Starlette(routes=[Route("/", endpoint, methods=["POST"])])
    ch = call(app, http_scope(method="POST", headers=[(b"content-type", header)]), msgs)
    return ch.status, seen


def h_truncated(S):
    """A body cut short (and complete as far as the server knows) is a client error."""
    c = S.bytes("c", 1, 1, alphabet=b"\r\n-b")
    parts = [part(b"n", c), part(b"m", c, b"f")]
    full = encode(parts if S.flag("two") else parts[:1], b"b", b"--")
    k = S.pick("k", 0, len(full))
    body = full[:k]
    status, seen = outcome(split(S, body, 1, lo=max(0, k - S.q(2, 6))) if S.flag("chunked") else [{"type": "http.request", "body": body}], b"multipart/form-data; boundary=b")
    if k < len(full):
        S.check(status == 400 and seen == [], "a truncated body was accepted")
        S.cover("truncated")
    else:
        S.check(status == 200 and len(seen) == 1, "a complete body was refused")
        S.cover("complete")


def h_garbage(S):
    """Any small body is a form or a client error, never a crash."""
    lead = S.choice("lead", [b"", b"--b\r\n", b"--b\r\nC", b'--b\r\nContent-Disposition: form-data; name="n"', b'--b\r\nContent-Disposition: form-data; name="n"\r\n\r\nx\r\n--b'])
    body = lead + S.bytes("rest", 0, S.q(4, 5), alphabet=b"\r\n-b:x")
    tail = S.choice("tail", [b"", b"\r\n--b--"])
    status, seen = outcome([{"type": "http.request", "body": body + tail}], b"multipart/form-data; boundary=b")
    S.check(status in (200, 400), "status")
    S.check((status == 200) == (len(seen) == 1), "an answer without a form")
    S.cover("ok" if status == 200 else "refused")


def h_mutated(S):
    """A well-formed body with one byte changed to any other: a form or a client error."""
    body = encode([part(b"n", b"v"), part(b"m", b"w", b"f", [(b"X", b"y")])], b"b")
    k = S.pick("k", 0, len(body) - 1)
    x = S.bytes("x", 1, 1)
    body = body[:k] + x + body[k + 1:]
    status, seen = outcome([{"type": "http.request", "body": body}], b"multipart/form-data; boundary=b")
    S.check(status in (200, 400), "status")
    S.check((status == 200) == (len(seen) == 1), "an answer without a form")
    S.cover("ok" if status == 200 else "refused")


def h_header(S):
    """Content-Type parameters: boundary missing, empty, quoted, too long."""
    which = S.choice("which", ["none", "empty", "quoted", "long", "other"])
    params = {"none": b"", "empty": b"; boundary=", "quoted": b'; boundary="b"', "long": b"; boundary=" + b"b" * 300, "other": b"; boundary=" + S.bytes("x", 1, 2, alphabet=b"b;=\"")}[which]
    body = encode([part(b"n", b"v")], b"b")
    status, seen = outcome([{"type": "http.request", "body": body}], b"multipart/form-data" + params)
    S.check(status in (200, 400), "status")
    S.check((status == 200) == (len(seen) == 1), "an answer without a form")
    if which == "quoted":
        S.check(status == 200, "a quoted boundary")
    if which in ("none", "long"):
        S.check(status == 400, "no usable boundary, but a form")
    S.cover(which)


def h_bare(S):
    """Outside an application the client error is raised as MultiPartException."""
    body = encode([part(b"n", S.bytes("c", 0, 1, alphabet=b"x-"))], b"b")
    k = S.pick("k", 0, len(body) - 5)
    try:
        drive(load(request([{"type": "http.request", "body": body[:k]}], b"b")))
        S.fail("a truncated body was accepted")
    except MultiPartException as e:
        S.check(isinstance(e.message, str), "message")
    S.cover("raised")


def h_large(S):
    """Many parts, long contents, names and part headers around any short content."""
    c = S.bytes("c", 0, 1)
    kind = S.choice("kind", ["many", "field", "file", "names"])
    ps, want = [], []

    def add(name, content, fn=None, hs=()):
        ps.append(part(name, content, fn, hs))
        want.append((name, content, fn, list(hs)))

    if kind == "many":
        for i in range(60):
            add(b"n%d" % (i % 50), b"%d" % i, b"f" if i % 3 == 0 else None)
        add(b"last", c)
    elif kind == "names":
        add(b"n" * 300, c, b"f" * 300, [(b"X-%d" % i, b"v" * 90 * i) for i in range(6)])
    else:
        long = b"0123456789abcdef" * S.q(200, 5000)
        add(b"n", c + long + c, b"f" if kind == "file" else None)
        add(b"m", long, b"g" if kind == "file" else None)
    body = encode(ps, b"zz")
    step = S.choice("step", [61, 1000, len(body)])
    parts = [body[i : i + step] for i in range(0, len(body), step)]
    msgs = [{"type": "http.request", "body": p, "more_body": i + 1 < len(parts)} for i, p in enumerate(parts)]
    old = MultiPartParser.spool_max_size
    MultiPartParser.spool_max_size = 1000 if S.flag("rolled") else old
    try:
        out = drive(load(request(msgs, b"zz")))
    finally:
        MultiPartParser.spool_max_size = old
    S.check(len(out) == len(want), "number of parts")
    for i, (name, content, fn, hs) in enumerate(want):
        if fn is None:
            S.check(is_field(S, out[i], name, content), "field")
        else:
            disp = b'form-data; name="' + name + b'"; filename="' + fn + b'"'
            S.check(is_file(S, out[i], name, fn, content, [(b"content-disposition", disp)] + [(k.lower(), v) for k, v in hs]), "file")
    S.cover(kind)


ASSUMPTIONS = [
    "well-formed bodies: the content does not contain CRLF -- boundary; names are quoted without escapes",
    "the temporary file of the standard library is a byte buffer (replaced in symbolic runs, real in replay); worker threads run in place",
]
HARNESSES = [
    dict(name="h_cut", covers=["file", "field"], bounds="field or file whose content is any prefix of the delimiter followed by <= 2 (thorough 3) bytes of 'CR LF - b X', cut at 2 places from the content on, 2 boundaries"),
    dict(name="h_anycut", covers=["ff", "fF", "Ff", "FF"], bounds="two parts of either kind, content <= 1 (2) bytes, cut at 1 (2) of all places"),
    dict(name="h_content", covers=["field", "file", "rolled"], bounds="content of <= 3 (4) arbitrary bytes, names of <= 1 arbitrary bytes, cut inside the content, file in memory or rolled over"),
    dict(name="h_parts", covers=["parts0", "parts1", "parts2", "parts3"], bounds="0..3 (4) parts of 4 kinds with equal or different names, extra part headers, 3 endings"),
    dict(name="h_charset", covers=["content", "name", "filename", "file field"], bounds="content, name or file name x 6 charset parameters x every byte, and every pair of 3 (thorough 8) bytes that form utf-8 characters or not"),
    dict(name="h_truncated", covers=["truncated", "complete"], bounds="one or two parts cut at every length, in one or two chunks"),
    dict(name="h_garbage", covers=["ok", "refused"], bounds="5 beginnings x <= 4 (5) bytes of 'CR LF - b : x' x with or without closing boundary"),
    dict(name="h_mutated", covers=["ok", "refused"], bounds="a two-part body with any one byte replaced by any byte"),
    dict(name="h_header", covers=["none", "empty", "quoted", "long", "other"], bounds="5 kinds of boundary parameters"),
    dict(name="h_bare", covers=["raised"], bounds="one part cut at every length"),
    dict(name="h_large", covers=["many", "field", "file", "names"], bounds="61 parts, two contents of 3200 (80000) bytes, or names of 300 characters and 6 long part headers, around any <= 1 byte; 3 chunk sizes; in memory or rolled over"),
]
