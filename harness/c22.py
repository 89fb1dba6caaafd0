"""C22: Range headers select the right bytes or are refused."""
import os

from hlib import call, http_scope
from vfile import VFile, multipart

from starlette.responses import FileResponse


def make(vf, chunk, **kw):
    class R(FileResponse):
        chunk_size = chunk

    return R(vf.path, media_type="text/x", **kw)


def served_ranges(S, vf, ch):
    """The (start, end) pairs of a 206 response, each checked to carry those bytes."""
    cr = ch.header(b"content-range")
    S.check(len(cr) == 1, "one Content-Range")
    cr = cr[0]
    if cr.startswith(b"multipart/"):
        return multipart(S, vf, ch, False)[2]
    S.check(cr.startswith(b"bytes "), "Content-Range unit")
    dash, slash = cr.find(b"-"), cr.find(b"/")
    S.check(dash > 6 and slash > dash, "Content-Range format")
    a, b, n = int(cr[6:dash]), int(cr[dash + 1 : slash]) + 1, int(cr[slash + 1 :])
    S.check(n == vf.size, "file size in Content-Range")
    r = vf.reader(ch.sent)
    S.check(r.data(a, b), "the body is not the range named")
    S.check(r.at_end(), "more than the range")
    return [(a, b)]


def spec(S, i, digits):
    """One range as (text, asked start, asked end, start beyond end, unsatisfiable), given the size."""
    form = S.choice("form%d" % i, ["a-b", "a-", "-a"])
    a = S.str("a%d" % i, 1, digits, alphabet="0123456789")
    if form == "a-b":
        b = S.str("b%d" % i, 1, digits, alphabet="0123456789")
        return form, a + "-" + b, int(a), int(b)
    if form == "a-":
        return form, a + "-", int(a), None
    return form, "-" + a, int(a), None


def resolve(S, form, x, y, size):
    """(start, end, inverted, unsatisfiable)."""
    if form == "a-b":
        return x, S.If(y < size, y + 1, size), x > y, x >= size
    if form == "a-":
        return x, size, False, x >= size
    return S.If(x > size, 0, size - x), size, False, S.Or(x == 0, size == 0)


def judge(S, vf, ch, asked):
    bad = S.Or(*[i for s, e, i, u in asked])
    unsat = S.Or(*[u for s, e, i, u in asked])
    size = vf.size
    if ch.status == 400:
        S.check(bad, "a valid range was refused as malformed")
        S.cover("400")
    elif ch.status == 416:
        S.check(unsat, "a satisfiable range was refused")
        S.check(S.eq(ch.header(b"content-range"), [("*/" + str(size)).encode()]), "Content-Range of a 416")
        S.cover("416")
    else:
        S.check(ch.status == 206, "status %s" % ch.status)
        S.check(S.Not(S.Or(bad, unsat)), "a malformed or unsatisfiable range was served")
        served = served_ranges(S, vf, ch)
        S.check(S.And(*[S.And(a < b, b <= size) for a, b in served]), "a served range is empty or beyond the file")
        S.check(S.And(*[served[i][1] <= served[i + 1][0] for i in range(len(served) - 1)]), "served ranges overlap or are not ascending")
        p = S.int("probe", 0, None)
        in_served = S.Or(*[S.And(a <= p, p < b) for a, b in served])
        in_asked = S.Or(*[S.And(s <= p, p < e) for s, e, i, u in asked])
        S.check(S.Or(S.And(in_served, in_asked), S.And(S.Not(in_served), S.Not(in_asked))), "the bytes served are not the bytes asked for")
        S.cover("206")
        S.cover("%d parts" % len(served))


def h_two(S):
    """One or two ranges of every form with symbolic digits, any file size."""
    n = S.pick("n", 1, 2)
    size = S.int("size", 0, 99)
    specs = [spec(S, i, S.q(1, 2)) for i in range(n)]
    asked = [resolve(S, f, x, y, size) for f, t, x, y in specs]
    text = S.choice("sep", [",", ", "]).join([t for f, t, x, y in specs])
    unit = S.choice("unit", ["bytes=", "Bytes = "])
    with VFile(S, size) as vf:
        judge(S, vf, call(make(vf, 200), http_scope(headers=[(b"range", (unit + text).encode())])), asked)


def h_digits(S):
    """One range with bounds of more digits."""
    size = S.int("size", 0, 3000)
    f, t, x, y = spec(S, 0, S.q(3, 4))
    with VFile(S, size) as vf:
        judge(S, vf, call(make(vf, 4000), http_scope(headers=[(b"range", b"bytes=" + t.encode())])), [resolve(S, f, x, y, size)])


def h_three(S):
    """Three (thorough four) bounded ranges in every relative position."""
    n = S.q(3, 4)
    size = S.int("size", 0, 9)
    asked, texts = [], []
    for i in range(n):
        a = S.str("a%d" % i, 1, 1, alphabet="0123456789")
        b = S.str("b%d" % i, 1, 1, alphabet="0123456789")
        S.assume(a <= b)
        S.assume(int(a) < size)
        texts.append(a + "-" + b)
        asked.append(resolve(S, "a-b", int(a), int(b), size))
    with VFile(S, size) as vf:
        judge(S, vf, call(make(vf, 20), http_scope(headers=[(b"range", ("bytes=" + ",".join(texts)).encode())])), asked)


def h_text(S):
    """Any text: answered 206, 400 or 416, never an error; and malformed texts with 400."""
    size = S.int("size", 0, 20)
    kind = S.choice("kind", ["unit", "ranges"])
    if kind == "unit":
        unit = S.str("unit", 0, S.q(3, 4), ranges=[(0x20, 0x7E)])
        text = unit + "=0-1"
        with VFile(S, size) as vf:
            ch = call(make(vf, 64), http_scope(headers=[(b"range", text.encode("latin-1"))]))
        S.check(ch.status == 400, "a unit other than bytes was accepted")
        S.cover("unit")
        return
    rest = S.str("rest", 0, S.q(4, 5), alphabet="09-,x ")
    eq = S.choice("eq", ["=", "", ":"])
    with VFile(S, size) as vf:
        ch = call(make(vf, 64), http_scope(headers=[(b"range", ("bytes" + eq + rest).encode())]))
    S.check(ch.status in (206, 400, 416), "status")
    S.cover(str(ch.status))
    if eq != "=":
        S.check(ch.status == 400, "a header without bytes= was accepted")
        S.cover("no unit")
        return
    # no digit, or no dash: no range at all
    digits = S.Or(*[S.Or(c == "0", c == "9") for c in rest])
    dashes = S.Or(*[c == "-" for c in rest])
    if ch.status != 400:
        S.check(S.And(digits, dashes), "a header without a range was accepted")


def h_status(S):
    """A file sent with another status than 200 is sent whole."""
    size = S.int("size", 0, 20)
    status = S.int("status", 201, 599)
    S.assume(S.And(status != 204, status != 206, status != 304))
    rng = S.choice("range", ["bytes=1-2", "bytes=x", "bytes=30-", "bytes=0-0,2-3", "bytes=-1"])
    with VFile(S, size) as vf:
        tag = call(make(vf, 64), http_scope()).header(b"etag")
        head = [(b"range", rng.encode())] + ([(b"if-range", tag[0])] if S.flag("if-range") else [])
        ch = call(make(vf, 64, status_code=status), http_scope(headers=head))
        S.check(S.eq(ch.status, status), "the status was replaced")
        r = vf.reader(ch.sent)
        S.check(r.data(0, size), "not the whole file")
        S.check(r.at_end(), "more than the file")
        S.check(ch.header(b"content-range") == [] and int(ch.header(b"content-length")[0]) == size, "headers of the whole file")
    S.cover("whole")


def h_if_range(S):
    """A validator that is neither the entity tag nor the date yields the whole file."""
    size = 6
    own = S.flag("own")
    headers = {"etag": '"ab"', "last-modified": "date"} if own else {}
    with VFile(S, size) as vf:
        r = make(vf, 64, headers=headers)
        if own:
            tag, date = '"ab"', "date"
            value = S.str("value", 0, 4, alphabet='"abdteW/')
        else:
            plain = call(make(vf, 64), http_scope())
            tag = plain.header(b"etag")[0].decode()
            date = plain.header(b"last-modified")[0].decode()
            value = S.choice("value", [tag, date, "W/" + tag, tag[:-1], tag[1:-1], date + " ", date.lower(), "", "*"])
        rng = S.choice("range", ["bytes=1-2", "bytes=x", "bytes=9-", "bytes=0-0,2-3"])
        head = [(b"if-range", value.encode()), (b"range", rng.encode())]
        ch = call(r, http_scope(headers=head))
        same = S.Or(S.eq(value, tag), S.eq(value, date))
        without = call(make(vf, 64, headers=headers), http_scope(headers=head[1:]))
        if ch.status == 200 and without.status != 200:
            S.check(S.Not(same), "a current validator did not give the range")
            S.check(vf.reader(ch.sent).data(0, size), "not the whole file")
            S.check(ch.header(b"content-range") == [], "Content-Range")
            S.cover("whole")
        else:
            S.check(same, "a stale validator gave a range")
            S.check(ch.status == without.status, "status")
            S.cover("range")


def h_large(S):
    """Many ranges in one header."""
    n = S.choice("n", [20, 60])
    layout = S.choice("layout", ["apart", "touching", "overlapping", "nested"])
    size = S.int("size", 0, 2000)
    S.assume(S.Or(*[S.And(size >= k - 1, size <= k + 1) for k in (1, 10, 10 * n - 9, 10 * n, 1999)]))
    asked, texts = [], []
    for i in range(n):
        a, b = {"apart": (10 * i, 10 * i + 4), "touching": (10 * i, 10 * i + 9), "overlapping": (10 * i, 10 * i + 15), "nested": (i, 2 * n - i)}[layout]
        texts.append("%d-%d" % (a, b))
        asked.append(resolve(S, "a-b", a, b, size))
    if S.flag("tail"):
        texts.append("-5")
        asked.append(resolve(S, "-a", 5, None, size))
    if S.flag("reverse"):
        texts.reverse()
    with VFile(S, size, 99) as vf:
        judge(S, vf, call(make(vf, 3000), http_scope(headers=[(b"range", ("bytes=" + ",".join(texts)).encode())])), asked)


ASSUMPTIONS = [
    "the file system as in C21",
    "a request with one malformed or one unsatisfiable range is refused as a whole; when it has both, either refusal is allowed",
    "texts that are not a list of ranges may be read leniently: pieces that look like ranges count",
]
HARNESSES = [
    dict(name="h_two", covers=["206", "400", "416", "1 parts", "2 parts"], bounds="one or two ranges in the 3 forms with bounds of <= 1 (thorough 2) digits, every size 0..99, 2 separators, 2 unit spellings"),
    dict(name="h_digits", covers=["206", "400", "416"], bounds="one range in the 3 forms with bounds of <= 3 (4) digits, every size 0..3000"),
    dict(name="h_three", covers=["206", "1 parts", "2 parts", "3 parts"], bounds="3 (4) bounded one-digit ranges in every relative position, every size 0..9"),
    dict(name="h_text", covers=["206", "400", "416", "unit", "no unit"], bounds="every unit text of length <= 3 (4); every list text of length <= 4 (5) over '09-,x '; every size 0..20"),
    dict(name="h_status", covers=["whole"], bounds="every status 201..599 but 204, 206 and 304, sizes 0..20, 5 range headers, with or without a current If-Range"),
    dict(name="h_if_range", covers=["whole", "range"], bounds="every If-Range text of length <= 4 over a fixed tag and date alphabet, or 9 variants of the generated validators, with 4 range headers"),
    dict(name="h_large", covers=["206", "416", "1 parts"], bounds="20 or 60 ranges apart, touching, overlapping or nested, in either order, with or without a suffix range; sizes about 5 values"),
]
