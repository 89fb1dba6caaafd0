"""C48: JSON responses and requests round-trip."""
import json

from hlib import Channel, call, drive, http_scope, outcome

from starlette.requests import Request
from starlette.responses import JSONResponse

TEXT = [(0, 0xD7FF), (0xE000, 0x10FFFF)]


class Spaced(Exception):
    pass


def compact(S, text):
    """No whitespace outside strings (walks the text; it is decided on each path)."""
    inside = escaped = False
    for c in text:
        if inside:
            if escaped:
                escaped = False
            elif c == "\\":
                escaped = True
            elif c == '"':
                inside = False
        elif c == '"':
            inside = True
        elif S.one_of(c, " \t\r\n"):
            return False
    return not inside


def same(S, a, b):
    """Equal as JSON values (True is not 1, 1.0 is not 1)."""
    if isinstance(a, dict):
        return isinstance(b, dict) and len(a) == len(b) and S.And(*[S.And(S.eq(k, l), same(S, v, w)) for (k, v), (l, w) in zip(a.items(), b.items())])
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and S.And(*[same(S, v, w) for v, w in zip(a, b)])
    if a is None or isinstance(a, bool) or isinstance(a, float):
        return type(a) is type(b) and repr(a) == repr(b)
    if isinstance(a, str):
        return isinstance(b, str) and S.eq(a, b)
    return isinstance(b, int) and not isinstance(b, bool) and S.eq(a, b)


def respond(S, content, **kw):
    ch = call(JSONResponse(content, **kw), http_scope())
    S.check(len(ch.header(b"content-type")) == 1 and ch.header(b"content-type")[0] == b"application/json", "content type")
    S.check(ch.header(b"content-length") == [str(len(ch.body)).encode()], "content length")
    return ch


def judge(S, content):
    ch = respond(S, content)
    try:
        text = ch.body.decode("utf-8")
    except UnicodeDecodeError:
        S.fail("the body is not UTF-8")
        return
    S.check(compact(S, text), "whitespace between tokens")
    got = outcome(lambda: json.loads(text))
    S.check(got[0] == "ok", "the body does not parse")
    S.check(same(S, content, got[1]), "the body parses to another value")
    S.observe("body", ch.body)


def h_text(S):
    """Every string as value and key."""
    s = S.str("s", 0, S.q(2, 3), ranges=TEXT)
    content = S.choice("shape", ["value", "key", "list", "deep"])
    if content == "value":
        content = s
    elif content == "key":
        content = {s: 1, "k": s}
        S.assume(S.Not(S.eq(s, "k")))
    elif content == "list":
        content = [s, "", [s]]
    else:
        content = {"a": [{"b": s}, None, True], "c": {}}
    judge(S, content)
    S.cover("text")


def h_pair(S):
    """Two keys and two values."""
    k, l = S.str("k", 0, 1, ranges=TEXT), S.str("l", 1, 1, ranges=TEXT)
    S.assume(S.Not(S.eq(k, l)))
    judge(S, {k: "x", l: [k]})
    S.cover("pair")


def h_number(S):
    """Any integer round-trips."""
    n = S.int("n", -S.q(999, 99999), S.q(999, 99999))
    judge(S, S.choice("shape", [n, [n], {"a": n}, [[n, 2], {"b": [n]}]]))
    S.cover("number")


def h_values(S):
    """Floats, constants and nesting; values JSON cannot hold are refused."""
    v = S.choice("v", [0.1, 1e308, -0.0, 5e-324, 1.0, 10**30, True, False, None, "", [], {}, float("inf"), float("-inf"), float("nan"), "NaN"])
    w = S.choice("w", [1, "x", float("nan"), None])
    content = S.choice("shape", [v, [w, v], {"a": v}, {"a": [v, {"b": w}]}, [[], [[v]]]])
    bad = [x for x in (v, w) if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf")))]
    used = repr(content)
    special = any(t in used.replace("'NaN'", "") for t in ("inf", "nan"))
    if special:
        got = outcome(lambda: JSONResponse(content))
        S.check(got == ("exc", "ValueError"), "a value that is not JSON was accepted")
        S.cover("refused")
    else:
        judge(S, content)
        S.cover("value")


def cuts(S, body, n):
    out, prev = [], 0
    for i in range(n):
        k = S.pick("cut%d" % i, prev, len(body))
        out.append(body[prev:k])
        prev = k
    out.append(body[prev:])
    return [{"type": "http.request", "body": b, "more_body": i < n} for i, b in enumerate(out)]


def h_request(S):
    """A request's JSON is that of its whole body, again and again."""
    # text that needs no escapes
    s = S.str("s", 0, S.q(2, 3), ranges=[(32, 33), (35, 91), (93, 0xD7FF), (0xE000, 0x10FFFF)])
    n = S.int("n", 0, 99)
    body = ('{"a": "' + s + '", "n":[' + str(n) + ", true]}").encode("utf-8")
    msgs = cuts(S, body, S.pick("cuts", 0, S.q(1, 2)))
    ch = Channel(msgs)
    req = Request(http_scope(method="POST"), ch.receive)

    async def go():
        a = await req.json()
        b = await req.json()
        c = await req.body()
        return a, b, c

    a, b, c = drive(go())
    S.check(same(S, {"a": s, "n": [n, True]}, a), "value")
    S.check(a is b, "repeated reads give another value")
    S.check(S.eq(c, body), "body")
    S.check(ch.pos == len(msgs), "messages consumed")
    S.cover("value")


def h_malformed(S):
    """Bodies that are not JSON raise; others give what the parser gives."""
    kind = S.choice("kind", ["free", "trail", "lead", "cut"])
    if kind == "free":
        body = S.bytes("b", 0, S.q(3, 4), alphabet='0a[]{}",:-e \x09\xc3\xa9')
    elif kind == "trail":
        body = b'{"a":1}' + S.bytes("t", 1, 2, ranges=[(1, 255)])
    elif kind == "lead":
        body = S.bytes("t", 1, 2, ranges=[(1, 255)]) + b"[1]"
    else:
        body = b'{"a":["b",1.5,null]}'
        body = body[: S.pick("n", 0, len(body))]
    msgs = cuts(S, body, S.pick("cuts", 0, 1))
    req = Request(http_scope(method="POST"), Channel(msgs).receive)
    got = outcome(lambda: drive(req.json()))
    want = outcome(lambda: json.loads(body))
    S.check(got[0] == want[0], "a malformed body parses, or a well-formed one does not")
    if got[0] == "ok":
        S.check(same(S, want[1], got[1]), "value")
    else:
        S.check(got[1] == want[1], "exception")
    S.observe("kind", got[0])
    S.cover(got[0])


ASSUMPTIONS = [
    "the json library is executed from its Python source (native replay uses its C accelerators); JSON values have string keys and no lone surrogates",
    "request bodies contain no zero bytes (which would make the parser guess UTF-16 or UTF-32)",
]
HARNESSES = [
    dict(name="h_text", covers=["text"], bounds="every string of <= 2 (thorough 3) characters of all Unicode but surrogates, as value, key, list element or nested"),
    dict(name="h_pair", covers=["pair"], bounds="objects with two different keys of <= 1 character"),
    dict(name="h_number", covers=["number"], bounds="every integer of <= 3 (5) digits in 4 shapes"),
    dict(name="h_values", covers=["value", "refused"], bounds="16 x 4 constants, floats and special values in 5 shapes"),
    dict(name="h_request", covers=["value"], bounds="bodies with every string of <= 2 (3) characters needing no escape and every number <= 99, in every split into <= 2 (3) chunks"),
    dict(name="h_malformed", covers=["ok", "exc"], bounds="every body of <= 3 (4) bytes over JSON punctuation, <= 2 arbitrary bytes before or after JSON, and every prefix, in every split into <= 2 chunks"),
]
