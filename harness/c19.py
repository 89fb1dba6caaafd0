"""C19: plain responses are framed correctly."""
from types import MappingProxyType

from hlib import call, http_scope, ws_scope

from starlette.datastructures import Headers, MutableHeaders
from starlette.responses import HTMLResponse, JSONResponse, PlainTextResponse, RedirectResponse, Response


def mangled(S, name, tag):
    """name with each letter in either case."""
    out = ""
    for i, c in enumerate(name):
        out = out + (S.str("%s%d" % (tag, i), 1, 1, alphabet=c + c.upper()) if c.isalpha() else c)
    return out


def forbids_length(S, status):
    return S.Or(status < 200, status == 204, status == 304)


def send(S, r, ws=False):
    if ws:
        ch = call(r, ws_scope(extensions={"websocket.http.response": {}}))
        S.check([m["type"] for m in ch.sent] == ["websocket.http.response.start", "websocket.http.response.body"], "message types for a websocket denial")
    else:
        ch = call(r, http_scope())
        S.check([m["type"] for m in ch.sent] == ["http.response.start", "http.response.body"], "message types")
    S.check(not ch.sent[1].get("more_body", False), "more body announced")
    return ch.sent[0]["status"], ch.sent[0]["headers"], ch.sent[1]["body"]


def split(headers, *names):
    """(values per name, other headers in order)."""
    vals = {n: [] for n in names}
    other = []
    for k, v in headers:
        for n in names:
            if k == n:
                vals[n].append(v)
                break
        else:
            other.append((k, v))
    return vals, other


def h_body(S):
    """Content, encoding, length and status."""
    kind = S.choice("kind", ["none", "bytes", "str", "memoryview", "latin"])
    cls, charset = Response, "utf-8"
    if kind == "none":
        content, want = None, b""
    elif kind == "bytes":
        content = want = S.bytes("content", 0, S.q(3, 5))
    elif kind == "memoryview":
        want = b"memory"[: S.pick("n", 0, 6)]
        content = memoryview(want)
    else:
        if kind == "latin":
            charset = "latin-1"
            content = S.str("content", 0, S.q(3, 5), ranges=[(0, 255)])
        else:
            content = S.str("content", 0, S.q(3, 5))
        want = content.encode(charset)
    status = S.int("status", 100, 599)
    media = S.choice("media", [None, "text/plain", "text/css; Charset=x", "image/png", "textual/x"])

    class R(Response):
        pass

    R.charset = charset
    r = R(content, status_code=status, media_type=media)
    st, headers, body = send(S, r, S.flag("ws"))
    S.check(S.eq(st, status), "status")
    S.check(len(body) == len(want) and (body == want if kind == "memoryview" else S.eq(body, want)), "body")
    vals, other = split(headers, b"content-length", b"content-type")
    n = len(vals[b"content-length"])
    S.check(S.If(forbids_length(S, status), n == 0, n == 1), "number of content-length headers")
    if n:
        S.check(S.eq(vals[b"content-length"][0], str(len(want)).encode()), "content-length")
        S.cover("length")
    else:
        S.cover("no length")
    t = {None: [], "text/plain": ["text/plain; charset=" + charset]}.get(media, [media])
    S.check(S.eq(vals[b"content-type"], [x.encode("latin-1") for x in t]), "content-type")
    S.check(other == [], "extra headers")


def h_headers(S):
    """Headers the caller supplies are kept, lower-cased, and never duplicated."""
    given = {}
    which = S.choice("which", ["none", "length", "type", "both", "neither"])
    val = S.str("val", 0, S.q(2, 3), ranges=[(0, 255)])
    want = []
    headers = {}
    if which == "none":
        headers = None
    else:
        name = S.str("name", 1, S.q(2, 4), ranges=[(0x21, 0x7E)])
        headers[name] = val
        want.append((name.lower().encode("latin-1"), val.encode("latin-1")))
        if which in ("length", "both"):
            headers[mangled(S, "content-length", "cl")] = size = S.str("size", 0, 2, alphabet="0369")
            want.append((b"content-length", size.encode("latin-1")))
        if which in ("type", "both"):
            headers[mangled(S, "content-type", "ct")] = val
            want.append((b"content-type", val.encode("latin-1")))
    cls = S.choice("cls", [PlainTextResponse, HTMLResponse, Response])
    r = cls("abc", headers=headers)
    st, sent, body = send(S, r)
    S.check(st == 200 and body == b"abc", "status or body")
    own = []
    if which in ("none", "neither", "type"):
        own.append((b"content-length", b"3"))
    if which in ("none", "neither", "length") and cls is not Response:
        own.append((b"content-type", b"text/plain; charset=utf-8" if cls is PlainTextResponse else b"text/html; charset=utf-8"))
    S.check(S.eq([tuple(h) for h in sent[: len(want)]], want), "a supplied header was changed")
    rest = [tuple(h) for h in sent[len(want):]]
    S.check(len(rest) == len(own) and all(any(a == b for b in rest) for a in own), "generated headers")
    S.cover(which)


def h_media(S):
    """The charset parameter is added to text types that have none, whatever the spelling."""
    tail = S.str("tail", 0, S.q(3, 5), alphabet="; =xX")
    word = mangled(S, "charset", "w") if S.flag("word") else "carset"
    top = S.choice("top", ["text/", "Text/", "text", "image/"])
    media = top + "h;" + tail + word + "=u"
    st, sent, body = send(S, Response(b"", media_type=media))
    has_word = word != "carset"
    add = top == "text/" and not has_word
    vals, other = split(sent, b"content-type", b"content-length")
    S.check(S.eq(vals[b"content-type"], [(media + ("; charset=utf-8" if add else "")).encode("latin-1")]), "content-type")
    S.cover("added" if add else "kept")


def h_mutate(S):
    """Headers changed on the response object before sending are the ones sent."""
    r = S.choice("cls", [PlainTextResponse, JSONResponse, RedirectResponse])("abc")
    before = list(r.raw_headers)
    key = S.choice("key", ["Content-Type", "X-New", "content-LENGTH", "location"])
    val = S.str("val", 0, 2, ranges=[(0, 255)])
    if S.flag("delete"):
        del r.headers[key]
        want = [h for h in before if h[0] != key.lower().encode()]
    else:
        r.headers[key] = val
        want, seen = [], False
        for k, v in before:
            if k == key.lower().encode():
                want.append((k, val.encode("latin-1")))
                seen = True
            else:
                want.append((k, v))
        if not seen:
            want.append((key.lower().encode(), val.encode("latin-1")))
    r.status_code = S.int("status", 200, 299)
    st, sent, body = send(S, r)
    S.check(S.eq([tuple(h) for h in sent], want), "headers after mutation")
    S.check(S.eq(st, r.status_code), "status after mutation")
    # sending twice gives the same messages
    S.check(S.eq([tuple(h) for h in send(S, r)[1]], want), "second send")
    S.cover("mutated")


def h_given(S):
    """The mapping of headers a caller gives, of any kind, is read and never changed."""
    name = S.str("name", 1, 1, alphabet="xC")
    val = S.str("val", 0, 1, ranges=[(0, 255)])
    pairs = [(name.lower().encode("latin-1"), val.encode("latin-1")), (b"x", b"2")][: S.pick("n", 0, 2)]
    kind = S.choice("kind", ["dict", "headers", "mutable", "response", "proxy"])
    if kind in ("dict", "proxy"):
        given = {k.decode(): v.decode("latin-1") for k, v in pairs}
        if kind == "proxy":
            given = MappingProxyType(given)
        pairs = [(k.encode(), v.encode("latin-1")) for k, v in given.items()]
    elif kind == "response":
        other = Response(b"other")
        del other.headers["content-length"]
        for k, v in pairs:
            other.headers.append(k.decode(), v.decode("latin-1"))
        given = other.headers
    else:
        given = (Headers if kind == "headers" else MutableHeaders)(raw=list(pairs))
    before = list(given.items())
    cls = S.choice("cls", [PlainTextResponse, Response, JSONResponse])
    for content in ("12", "12345"):
        r = cls(content, headers=given)
        status, sent, body = send(S, r)
        own = [(b"content-length", str(len(body)).encode())]
        if cls is not Response:
            own.append((b"content-type", b"text/plain; charset=utf-8" if cls is PlainTextResponse else b"application/json"))
        sent = [tuple(h) for h in sent]
        S.check(S.eq(sent[: len(pairs)], pairs), "the headers given")
        rest = sent[len(pairs) :]
        S.check(len(rest) == len(own) and all(any(a == b for b in rest) for a in own), "generated headers")
        r.headers["later"] = "1"
        r.set_cookie("c", "d")
        S.check(S.eq(list(given.items()), before), "the caller's headers were changed")
    S.cover(kind)


ASSUMPTIONS = ["memoryviews of bytes; header texts are latin-1; the length of a body whose status forbids content is not checked"]
HARNESSES = [
    dict(name="h_body", covers=["length", "no length"], bounds="content None, any bytes or text of length <= 3 (thorough 5), memoryviews, 2 charsets; any status 100..599; 5 media types; http and websocket denial"),
    dict(name="h_headers", covers=["none", "length", "type", "both", "neither"], bounds="any visible-ASCII name of length <= 2 (4), any latin-1 value of length <= 2 (3), content-length and content-type in every letter case, 3 classes"),
    dict(name="h_media", covers=["added", "kept"], bounds="4 top-level types, parameter tail of length <= 3 (5) over '; =xX', 'charset' in every letter case"),
    dict(name="h_mutate", covers=["mutated"], bounds="3 classes x 4 headers set or deleted after construction, any latin-1 value of length <= 2, any 2xx status, sent twice"),
    dict(name="h_given", covers=["dict", "headers", "mutable", "response", "proxy"], bounds="5 kinds of mappings with <= 2 headers (also of one name) and any latin-1 value of length <= 1; two responses of 3 classes from the same mapping"),
]
