"""C16: URL-encoded forms parse to the encoded fields whatever the chunking."""
from urllib.parse import unquote, urlencode

from hlib import Channel, call, drive, http_scope

from starlette.applications import Starlette
from starlette.requests import Request
from starlette.responses import Response
from starlette.routing import Route


def reference(raw):
    out = []
    for piece in raw.split("&"):
        if not piece:
            continue
        k, sep, v = piece.partition("=")
        out.append((unquote(k.replace("+", " ")), unquote(v.replace("+", " "))))
    return out


def same(S, got, want):
    return S.And(len(got) == len(want), *[S.And(S.eq(a[0], b[0]), S.eq(a[1], b[1])) for a, b in zip(got, want)])


def split(S, body, cuts):
    """Messages carrying body cut at `cuts` symbolic places (empty chunks included)."""
    out = []
    at = 0
    for i in range(cuts):
        k = S.pick("cut%d" % i, at, len(body))
        out.append(body[at:k])
        at = k
    out.append(body[at:])
    end = S.choice("end", ["last", "empty"])
    if end == "empty":
        out.append(b"")
    return [{"type": "http.request", "body": c, "more_body": i < len(out) - 1} for i, c in enumerate(out)]


def request(msgs, ctype="application/x-www-form-urlencoded"):
    ch = Channel(msgs)
    return Request(http_scope(method="POST", headers=[(b"content-type", ctype.encode("ascii"))]), ch.receive)


def h_raw(S):
    """Any body, cut anywhere, gives the fields of a reference decoder."""
    body = S.bytes("body", 0, S.q(5, 6), alphabet=b"a=&+%4")
    want = reference(body.decode("latin-1"))
    req = request(split(S, body, S.q(1, 2)))
    form = drive(req._get_form()) if S.flag("direct") else drive(awaited(req))
    S.check(same(S, form.multi_items(), want), "fields")
    S.observe("items", form.multi_items())
    again = drive(awaited(req))
    S.check(again is form, "a second read gives another form")
    S.cover("fields" if want else "none")


async def awaited(req):
    return await req.form()


def h_bytes(S):
    """Raw bytes and escapes decode as latin-1 text with UTF-8 escapes."""
    body = S.bytes("body", 1, S.q(2, 3), exclude=b"&=")
    pre = S.choice("pre", [b"k=", b"k=%C3", b"%", b"x%4"])
    text = (pre + body).decode("latin-1")
    req = request(split(S, pre + body, 1))
    form = drive(awaited(req))
    S.check(same(S, form.multi_items(), reference(text)), "fields")
    S.cover("bytes")


def h_roundtrip(S):
    """Encoded fields come back whatever the cuts."""
    n = S.pick("n", 0, 2)
    alpha = "a=&+% é\U0001F600" if n < 2 else S.q("&é", "a=&+% é")
    pairs = [(S.str("k%d" % i, 0, 1, alphabet=alpha), S.str("v%d" % i, 0, S.q(1, 2) if n < 2 else 1, alphabet=alpha)) for i in range(n)]
    body = urlencode(pairs).encode("ascii")
    form = drive(awaited(request(split(S, body, 1))))
    S.check(same(S, form.multi_items(), pairs), "another form than the encoded one")
    S.cover("pairs%d" % n)


def h_type(S):
    """Only the declared media type makes a form; reading after body() works."""
    ctype = S.choice("ctype", ["application/x-www-form-urlencoded", "Application/X-WWW-Form-Urlencoded", "application/x-www-form-urlencoded; charset=utf-8", "text/plain", "application/json", ""])
    v = S.bytes("v", 0, 2, alphabet=b"ab+")
    body = b"k=" + v
    seen = []
    first = S.choice("first", ["none", "body", "context"])

    async def endpoint(request):
        if first == "body":
            seen.append(await request.body())
        if first == "context":
            async with request.form() as form:
                seen.append(form.multi_items())
        else:
            seen.append((await request.form()).multi_items())
        return Response(b"")

    app = Starlette(routes=[Route("/", endpoint, methods=["POST"])])
    ch = call(app, http_scope(method="POST", headers=[(b"content-type", ctype.encode())] if ctype else []), split(S, body, 1))
    S.check(ch.status == 200, "status")
    if first == "body":
        S.check(S.eq(seen[0], body), "body")
    if "form-url" in ctype.lower():
        S.cover("form")
        S.check(same(S, seen[-1], reference(body.decode("latin-1"))), "fields")
    else:
        S.cover("other")
        S.check(seen[-1] == [], "a form out of another media type")


def h_large(S):
    """One field with any character among many plain ones, in many chunks or one."""
    n = S.choice("n", S.q([130], [130, 1030]))
    at = S.choice("at", [0, n - 1])
    pairs = [("k%d" % i, "v%d" % (i % 7)) for i in range(n)]
    pairs[at] = ("k", S.str("v", 0, 1, alphabet="a=&+% é"))
    body = urlencode(pairs).encode("ascii")
    how = S.choice("cut", ["one", "many", "rest"])
    if how == "one":
        msgs = split(S, body, 0)
    elif how == "rest":
        msgs = [{"type": "http.request", "body": body[:9], "more_body": True}, {"type": "http.request", "body": body[9:]}]
    else:
        step = 11
        parts = [body[i : i + step] for i in range(0, len(body), step)]
        msgs = [{"type": "http.request", "body": p, "more_body": i + 1 < len(parts)} for i, p in enumerate(parts)]
    form = drive(awaited(request(msgs)))
    S.check(same(S, form.multi_items(), pairs), "another form than the encoded one")
    S.cover(how)


ASSUMPTIONS = ["raw bytes above 127 stand for latin-1 characters; percent escapes are UTF-8 (invalid ones become U+FFFD)"]
HARNESSES = [
    dict(name="h_raw", covers=["fields", "none"], bounds="every body of length <= 5 (thorough 6) over 'a=&+%4', cut at 1 (2) places, with or without an empty last message"),
    dict(name="h_bytes", covers=["bytes"], bounds="4 prefixes x every 1..2 (3) bytes but & and =, cut at any place"),
    dict(name="h_roundtrip", covers=["pairs0", "pairs1", "pairs2"], bounds="<= 2 pairs of texts of length <= 1 (2) over 8 characters (two pairs: 2 (7)), cut at any place"),
    dict(name="h_type", covers=["form", "other"], bounds="6 content types, values of length <= 2, read directly, after body() or as context manager"),
    dict(name="h_large", covers=["one", "many", "rest"], bounds="130 (thorough also 1030) fields, the first or last of any text of length <= 1; in one, two or many chunks"),
]
