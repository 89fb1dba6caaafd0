"""C26: conditional requests get 304 exactly when unchanged."""
import os
from email.utils import formatdate

from hlib import call, http_scope
from vfs import MTIME, Tree

from starlette.datastructures import Headers
from starlette.staticfiles import NotModifiedResponse, StaticFiles

MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


class Cached(StaticFiles):
    """Static files with cache headers of its own."""

    extra = {}

    def is_not_modified(self, response_headers, request_headers):
        for k, v in self.extra.items():
            response_headers[k] = v
        return super().is_not_modified(response_headers, request_headers)


def get(S, t, headers, method="GET", app=None):
    app = app or StaticFiles(directory=os.path.join(t.root, "d"))
    return call(app, http_scope("/a", method=method, headers=[(k.encode(), v.encode("latin-1")) for k, v in headers]))


def one(ch, name):
    vals = ch.header(name)
    return vals[0].decode("latin-1") if len(vals) == 1 else None


def judge(S, ch, unchanged, body, full):
    if ch.status == 304:
        S.check(unchanged, "304 although the validators do not match")
        S.check(len(ch.body) == 0, "body of a 304")
        S.check(S.eq(one(ch, b"etag"), one(full, b"etag")), "entity tag of a 304")
        S.check(ch.header(b"content-length") == [], "content-length of a 304")
        S.cover("304")
    else:
        S.check(ch.status == 200, "status")
        S.check(S.Not(unchanged), "a full response although the validators match")
        S.check(ch.body == body, "body")
        S.check(S.eq(ch.headers, full.headers), "headers of a full response")
        S.cover("200")


def tree(S, content=b"content", mtime=MTIME):
    return Tree(S, {"d": {"a": content}}, {"d/a": mtime})


def tag_list(S, etag, n, symbolic):
    """A list of entity tags and the formula that the current one is in it."""
    text, listed = "", []
    for i in range(n):
        kind = S.choice("tag%d" % i, ["same", "weak", "other", "shorter", "inner", "any"])
        if kind == "same":
            tag = etag
            listed.append(True)
        elif kind == "weak":
            tag = "W/" + etag
            listed.append(True)
        elif kind == "other":
            tag = '"' + S.str("t%d" % i, 0, symbolic, alphabet="0af-/W,") + '"'
        elif kind == "shorter":
            tag = etag[:-2] + '"'
        elif kind == "inner":
            # the current tag with one digit replaced
            c = S.str("c%d" % i, 1, 1, alphabet="0123456789abcdef")
            tag = etag[:5] + c + etag[6:]
            listed.append(S.eq(c, etag[5]))
        else:
            tag = S.choice("u%d" % i, ["", "x", '""', "*x", etag[1:-1]])
        if i:
            text = text + S.choice("sep%d" % i, [",", ", ", " ,\t" if S.thorough else " , "])
        text = text + tag
    return text, S.Or(*listed)


def h_tags(S):
    """Every short list of tags; If-Modified-Since must not matter beside it."""
    with tree(S) as t:
        full = get(S, t, [])
        etag = one(full, b"etag")
        text, listed = tag_list(S, etag, S.pick("n", 1, S.q(2, 3)), S.q(2, 3))
        headers = [("if-none-match", text)]
        since = S.choice("since", [None, "old", "now", "later", "bad"])
        if since:
            headers.append(("if-modified-since", {"old": formatdate(MTIME - 1, usegmt=True), "now": formatdate(MTIME, usegmt=True), "later": formatdate(MTIME + 1, usegmt=True), "bad": "?"}[since]))
        ch = get(S, t, headers)
    judge(S, ch, listed, b"content", full)


def digits(S, name, n):
    t = S.str(name, n, n, alphabet="0123456789")
    return t, int(t)


FILE_TIMES = [
    (MTIME, (2023, 11, 14, 22, 13, 20)),
    (951782399, (2000, 2, 28, 23, 59, 59)),
    (951782400, (2000, 2, 29, 0, 0, 0)),
    (946684799, (1999, 12, 31, 23, 59, 59)),
    (946684800, (2000, 1, 1, 0, 0, 0)),
    (4102444800, (2100, 1, 1, 0, 0, 0)),
]


def later_or_equal(S, a, b):
    """Lexicographic a >= b, as a formula."""
    ok = True
    for x, y in reversed(list(zip(a, b))):
        ok = S.Or(x > y, S.And(x == y, ok))
    return ok


def h_dates(S):
    """If-Modified-Since alone: every date against boundary file times."""
    mtime, parts = S.choice("file", FILE_TIMES if S.thorough else FILE_TIMES[:3])
    form = S.choice("form", ["imf", "asctime", "rfc850"])
    day, dd = digits(S, "day", 2)
    month = S.choice("month", MONTHS)
    hh, h = digits(S, "hour", 2)
    mi, m = digits(S, "minute", 2)
    ss, s = digits(S, "second", 2)
    S.assume(S.And(dd >= 1, dd <= 31, h <= 23, m <= 59, s <= 60))
    if form == "rfc850":
        yy, y2 = digits(S, "year", 2)
        y = S.If(y2 > 68, 1900 + y2, 2000 + y2)
        text = "Sunday, " + day + "-" + month + "-" + yy + " " + hh + ":" + mi + ":" + ss + " GMT"
    else:
        yy, y = digits(S, "year", 4)
        S.assume(y >= 1900)
        if form == "imf":
            text = "Sun, " + day + " " + month + " " + yy + " " + hh + ":" + mi + ":" + ss + " GMT"
        else:
            text = "Sun " + month + " " + day + " " + hh + ":" + mi + ":" + ss + " " + yy
    with tree(S, mtime=mtime) as t:
        full = get(S, t, [])
        ch = get(S, t, [("if-modified-since", text)])
    judge(S, ch, later_or_equal(S, (y, MONTHS.index(month) + 1, dd, h, m, s), parts), b"content", full)
    S.cover(form)


def h_garbage(S):
    """Texts that are no date are ignored."""
    text = S.choice("lead", ["", "Sun, 06 Nov ", "Sun, 06 Nov 1994 08:49:37"]) + S.str("text", 0, S.q(3, 4), alphabet="0, -:.Z+")
    with tree(S, mtime=FILE_TIMES[-1][0]) as t:
        full = get(S, t, [])
        ch = get(S, t, [("if-modified-since", text)])
    judge(S, ch, False, b"content", full)


def h_changed(S):
    """A tag taken before a change of the file matches only if neither size nor time changed."""
    s1, s2 = S.pick("size1", 0, S.q(11, 12)), S.pick("size2", 0, S.q(11, 12))
    m1 = S.choice("mtime1", [MTIME, MTIME + 1])
    m2 = S.choice("mtime2", [MTIME, MTIME + 0.5, MTIME + 1, MTIME + 10])
    with tree(S, b"x" * s1, m1) as t:
        etag = one(get(S, t, []), b"etag")
    with tree(S, b"x" * s2, m2) as t:
        full = get(S, t, [])
        ch = get(S, t, [("if-none-match", etag)])
    judge(S, ch, s1 == s2 and m1 == m2, b"x" * s2, full)


CACHE = ["Cache-Control", "Content-Location", "Date", "ETag", "Expires", "Vary"]
OTHER = ["Content-Length", "Content-Type", "Content-Encoding", "X-Other"]


def h_headers(S):
    """A 304 keeps exactly the cache headers of the full response."""
    extra = {}
    names = S.choice("names", [CACHE[:2], CACHE[2:4], CACHE[4:], CACHE])
    for i, k in enumerate(names + OTHER):
        if k != "ETag" and S.flag("has%d" % i):
            extra[k] = S.str("v%d" % i, 1, 1, ranges=[(0x21, 0x7E), (0xA0, 0xFF)])
    with tree(S) as t:
        app = Cached(directory=os.path.join(t.root, "d"))
        app.extra = extra
        full = get(S, t, [], app=app)
        method = S.choice("method", ["GET", "HEAD"])
        ch = get(S, t, [("if-none-match", one(full, b"etag"))], method=method, app=app)
    S.check(ch.status == 304, "status")
    S.check(len(ch.body) == 0, "body")
    for k in CACHE:
        S.check(S.eq(ch.header(k.lower().encode()), full.header(k.lower().encode())), "header " + k + " of a 304")
    S.check(ch.header(b"content-length") == [] and ch.header(b"content-type") == [], "content headers of a 304")
    S.cover("304 headers")


ASSUMPTIONS = [
    "the file system as in C25; hash collisions are assumed away",
    "entity tags in If-None-Match contain no blanks or weak prefix beyond one W/; If-None-Match: * is not covered; one header line",
    "dates are in one of the three HTTP formats and in GMT; the day name is ignored",
]
HARNESSES = [
    dict(name="h_tags", covers=["200", "304"], bounds="lists of <= 2 (thorough 3) tags in 6 forms (current, weak, one symbolic digit, symbolic text of length <= 2 (3)) x 3 separators x 5 values of If-Modified-Since"),
    dict(name="h_dates", covers=["200", "304", "imf", "asctime", "rfc850"], bounds="every date from 1900 to 9999 in 3 formats against 3 (6) file times at day, month, year and century boundaries"),
    dict(name="h_garbage", covers=["200"], bounds="3 beginnings followed by every text of length <= 3 (4) over '0, -:.Z+'"),
    dict(name="h_changed", covers=["200", "304"], bounds="every pair of sizes 0..11 and of 2 x 4 modification times, half a second apart or more"),
    dict(name="h_headers", covers=["304 headers"], bounds="every subset of 4 choices of cache headers and 4 others with any one-character value, GET and HEAD"),
]
