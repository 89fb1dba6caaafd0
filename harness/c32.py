"""C32: sessions only ever come from validly signed, unexpired cookies."""
import time
from base64 import b64encode

import itsdangerous

from hlib import Channel, call, drive, http_scope, ws_scope

from starlette.middleware.sessions import SessionMiddleware

NOW = 1700000000
KEY = "secret"
PLAIN = [(32, 33), (35, 91), (93, 126)]  # needs no escape in JSON


class Clock:
    """time.time() as the test sets it."""

    def __init__(self, *times):
        self.times = list(times)

    def __enter__(self):
        self.real = time.time
        time.time = self
        return self

    def __exit__(self, *a):
        time.time = self.real

    def __call__(self):
        return self.times.pop(0) if len(self.times) > 1 else self.times[0]


class App:
    """Records the session it gets and changes it."""

    def __init__(self, change=None, status=200):
        self.change = change
        self.status = status
        self.seen = []

    async def __call__(self, scope, receive, send):
        session = scope["session"]
        self.seen.append(dict(session))
        if self.change is not None:
            self.change(session)
        await send({"type": "http.response.start", "status": self.status, "headers": [(b"x", b"y"), (b"set-cookie", b"other=1")]})
        await send({"type": "http.response.body", "body": b"ok"})


def request(mw, cookie=None, extra=(), name="session"):
    headers = [(b"accept", b"*")]
    if cookie is not None:
        headers.append((b"cookie", cookie if not isinstance(cookie, str) else cookie.encode("latin-1")))
    return call(mw, http_scope("/", headers=headers + list(extra)))


def cookies(S, ch):
    """Set-Cookie headers of the session middleware as (name, value, attributes)."""
    S.check([h for h in ch.headers if h[0] != b"set-cookie"] == [(b"x", b"y")], "other headers")
    vals = ch.header(b"set-cookie")
    S.check(vals[:1] == [b"other=1"], "the application's own cookie")
    out = []
    for v in vals[1:]:
        parts = v.decode("latin-1").split("; ")
        name, _, value = parts[0].partition("=")
        attrs = {}
        for p in parts[1:]:
            k, _, a = p.partition("=")
            S.check(k.lower() not in attrs, "repeated attribute")
            attrs[k.lower()] = a
        out.append((name, value, attrs))
    S.check(len(out) <= 1, "one session cookie")
    return out


def attributes(S, attrs, cfg, clear):
    want = {"path": cfg.get("path", "/"), "samesite": cfg.get("same_site", "lax"), "httponly": ""}
    if cfg.get("https_only"):
        want["secure"] = ""
    if cfg.get("domain") is not None:
        want["domain"] = cfg["domain"]
    if clear:
        S.check(attrs.pop("expires", "").endswith("1970 00:00:00 GMT") or attrs.pop("max-age", None) == "0", "expiry of a cleared cookie")
    elif cfg.get("max_age", 1209600) is not None:
        want["max-age"] = str(cfg.get("max_age", 1209600))
    S.check(S.eq(attrs, want), "attributes")


def judge(S, ch, final, loaded, cfg):
    """final: the session at response start; loaded: it came with a valid cookie."""
    got = cookies(S, ch)
    if final:
        S.check(len(got) == 1, "no cookie for a session with data")
        attributes(S, got[0][2], cfg, False)
        S.check(got[0][0] == cfg.get("session_cookie", "session"), "cookie name")
        S.cover("saved")
        return got[0][1]
    if loaded:
        S.check(len(got) == 1, "the cookie of an emptied session is not cleared")
        attributes(S, got[0][2], cfg, True)
        S.check(got[0][0] == cfg.get("session_cookie", "session"), "cookie name")
        S.cover("cleared")
        return None
    S.check(got == [], "a cookie for an empty session")
    S.cover("none")
    return None


def signed(data=b'{"a": "b"}', key=KEY, at=NOW, salt=None):
    with Clock(at):
        signer = itsdangerous.TimestampSigner(key) if salt is None else itsdangerous.TimestampSigner(key, salt=salt)
        return signer.sign(b64encode(data)).decode()


CHANGES = ["none", "set", "delete", "clear", "replace"]


def change(kind, k, v):
    def f(session):
        if kind == "set":
            session[k] = v
        elif kind == "delete":
            session.pop(k, None)
        elif kind == "clear":
            session.clear()
        elif kind == "replace":
            session.clear()
            session[v] = [k]
    return f


def after(kind, session, k, v):
    s = dict(session)
    change(kind, k, v)(s)
    return s


def h_history(S):
    """What a request saves is what the next one gets."""
    k = S.str("k", 1, 1, ranges=PLAIN)
    v = S.str("v", 0, 1, ranges=[(0, 0x2FFF)]) if S.thorough else S.choice("v", ["", "é\n\"", "x;,= "])
    first = S.choice("c0", ["none", "set"])
    second = S.choice("c1", CHANGES)
    third = S.choice("c2", ["none", "set", "clear"])
    app = App(status=S.int("status", 200, 599))
    mw = SessionMiddleware(app, KEY)
    state, cookie = {}, None
    with Clock(NOW):
        for kind in (first, second, third):
            app.change = change(kind, k, v)
            ch = request(mw, None if cookie is None else "x=1; session=" + cookie + "; y=2")
            S.check(ch.status == app.status and ch.body == b"ok", "response")
            S.check(S.eq(app.seen[-1], state), "the session is what was saved last")
            state = after(kind, state, k, v)
            cookie = judge(S, ch, state, cookie is not None, {})
    S.cover("history")


def h_expiry(S):
    """A cookie is good up to the maximum age and not after."""
    limit = S.choice("limit", ["none", "some", "default", "zero"])
    age = S.int("age", 0, 4000000)
    cfg = {}
    max_age = 1209600
    if limit == "none":
        cfg["max_age"] = max_age = None
    elif limit == "some":
        cfg["max_age"] = max_age = S.int("max", 1, S.q(999, 99999))
    elif limit == "zero":
        cfg["max_age"] = max_age = 0
    app = App()
    mw = SessionMiddleware(app, KEY, **cfg)
    cookie = signed()
    with Clock(NOW + age, NOW + 4000000):
        ch = request(mw, "session=" + cookie)
    good = max_age is None or age <= max_age
    if good:
        S.check(app.seen == [{"a": "b"}], "an unexpired session is lost")
        if limit != "zero":
            judge(S, ch, True, True, cfg)
        S.cover("good")
    else:
        S.check(app.seen == [{}], "an expired session is accepted")
        judge(S, ch, False, False, cfg)
        S.cover("expired")


def h_altered(S):
    """A cookie with any one character changed, added or removed, or cut in two."""
    data = S.choice("data", [b'{"a": "b"}', b'{"n": 1}'])
    cookie = signed(data)
    original = {"a": "b"} if data[2:3] == b"a" else {"n": 1}
    kind = S.choice("kind", ["replace", "insert", "delete", "cut", "swap"])
    i = S.pick("i", 0, len(cookie) - 1)
    c = S.str("c", 1, 1, ranges=[(0, 255)]) if kind in ("replace", "insert") else ""
    if kind == "replace":
        S.assume(c != cookie[i])
        text = cookie[:i] + c + cookie[i + 1:]
    elif kind == "insert":
        text = cookie[:i] + c + cookie[i:]
    elif kind == "delete":
        text = cookie[:i] + cookie[i + 1:]
    elif kind == "cut":
        text = cookie[:i]
    else:
        text = cookie[i:] + cookie[:i]
    app = App()
    mw = SessionMiddleware(app, KEY)
    with Clock(NOW + 1):
        ch = request(mw, "session=" + text)
    S.check(ch.status == 200, "response")
    S.check(len(app.seen) == 1, "called once")
    if app.seen[0] == {}:
        judge(S, ch, False, False, {})
        S.cover("refused")
    else:
        S.check(app.seen[0] == original, "a session that was never saved")
        S.cover("same data")


def h_foreign(S):
    """Cookies of other keys, salts and names, forged or partial ones, and no cookie."""
    kind = S.choice("kind", ["key", "salt", "name", "unsigned", "moved", "none", "null", "empty", "age"])
    good = signed()
    name = "session"
    if kind == "key":
        text = signed(key=S.choice("key", ["Secret", "secre", "secret ", ""]))
    elif kind == "salt":
        text = signed(salt=b"other")
    elif kind == "name":
        name, text = S.choice("name", ["Session", "session2", "sessio", ""]), good
    elif kind == "unsigned":
        text = good.rpartition(".")[0]
    elif kind == "moved":
        # data of one cookie under the signature of another
        text = signed(b'{"n": 1}').split(".")[0] + "." + good.partition(".")[2]
    elif kind == "age":
        # a newer time stamp under the old signature
        a, b = good.split("."), signed(at=NOW + 5000000).split(".")
        text = a[0] + "." + b[1] + "." + a[2]
    elif kind == "null":
        text = "null"
    else:
        text = ""
    app = App()
    mw = SessionMiddleware(app, KEY)
    with Clock(NOW + (5000000 if kind == "age" else 1)):
        ch = request(mw, None if kind == "none" else name + "=" + text)
    S.check(app.seen == [{}], "a foreign session is accepted")
    judge(S, ch, False, False, {})
    S.cover(kind)


def h_free(S):
    """Every short cookie."""
    text = S.str("t", 0, S.q(3, 4), ranges=[(0, 255)])
    mid = S.choice("mid", ["", "=", ".", ".Zg.", "e30=.Zg."])
    app = App()
    mw = SessionMiddleware(app, KEY)
    with Clock(NOW):
        ch = request(mw, "session=" + (mid + text if S.flag("front") else text + mid))
    S.check(app.seen == [{}], "a session out of nothing")
    judge(S, ch, False, False, {})
    S.cover("refused")


def h_attributes(S):
    """The cookie carries the configured attributes when set and when cleared."""
    cfg = {}
    for key, vals in [
        ("session_cookie", ["sid"]),
        ("path", ["/a/b"]),
        ("same_site", ["strict", "none"]),
        ("https_only", [True]),
        ("domain", [".ex.org"]),
        ("max_age", [None, 5]),
    ]:
        v = S.choice(key, ["default"] + vals)
        if v != "default":
            cfg[key] = v
    name = cfg.get("session_cookie", "session")
    app = App()
    mw = SessionMiddleware(app, S.choice("key", [KEY, "k"]), **cfg)
    with Clock(NOW):
        app.change = change("set", "a", 1)
        ch = request(mw)
        cookie = judge(S, ch, {"a": 1}, False, cfg)
        app.change = change("clear", "a", 1)
        ch = request(mw, name + "=" + cookie)
        S.check(app.seen[-1] == {"a": 1}, "session")
        judge(S, ch, {}, True, cfg)
    S.cover("attributes")


def h_values(S):
    """Sessions of any JSON shape, also ones whose values are false."""
    data = S.choice("data", [{"a": None}, {"": ""}, {"a": [1, {"b": 2.5}], "c": False}, {"n": -10**20}, {"k": "\u2028\U0001f600;\"\\"}])
    app = App(lambda s: s.update(data))
    mw = SessionMiddleware(app, KEY)
    with Clock(NOW):
        cookie = judge(S, request(mw), data, False, {})
        app.change = None
        judge(S, request(mw, "session=" + cookie), data, True, {})
    S.check(app.seen == [{}, data], "the session is what was saved")
    # a first reader does not share state with a second one
    with Clock(NOW):
        request(mw)
    S.check(app.seen[-1] == {}, "sessions are separate")
    S.cover("values")


def h_other(S):
    """Websockets get the session too; nothing is written there; lifespan passes."""
    seen = []

    async def app(scope, receive, send):
        seen.append(scope.get("session"))
        await send({"type": "websocket.accept", "headers": [(b"x", b"y")]})

    mw = SessionMiddleware(app, KEY)
    if S.flag("lifespan"):
        ch = Channel([])
        drive(mw({"type": "lifespan"}, ch.receive, ch.send))
        S.check(seen == [None], "lifespan")
        S.cover("lifespan")
        return
    good = S.flag("good")
    with Clock(NOW):
        ch = call(mw, ws_scope(headers=[(b"cookie", ("session=" + signed(key=KEY if good else "no")).encode())]))
    S.check(seen == [{"a": "b"} if good else {}], "session of a websocket")
    S.check(ch.sent == [{"type": "websocket.accept", "headers": [(b"x", b"y")]}], "messages")
    S.cover("websocket")


def h_large(S):
    """Large sessions, among many other cookies."""
    v = S.str("v", 0, 1, ranges=[(32, 126)])
    data = {"k%d" % i: "v%d" % i for i in range(S.q(40, 200))} if S.flag("many") else {"k": "x" * S.q(1500, 5000)}
    data["any"] = v
    app = App(lambda s: s.update(data))
    mw = SessionMiddleware(app, KEY)
    with Clock(NOW):
        cookie = judge(S, request(mw), data, False, {})
        app.change = None
        others = "; ".join("c%d=1" % i for i in range(60))
        judge(S, request(mw, others + "; session=" + cookie + "; z=1"), data, True, {})
    S.check(app.seen[0] == {} and S.eq(app.seen[1], data), "the session is what was saved")
    S.cover("large")


ASSUMPTIONS = [
    "itsdangerous, base64 and json are executed from source; HMAC-SHA1 of symbolic data is an unknown, collision-free value, so a signature cannot be guessed",
    "the clock does not run backwards; maximum ages are not negative, and the attributes of the cookie are only judged for positive ones; session data is a JSON object with string keys",
]
HARNESSES = [
    dict(name="h_history", covers=["history", "saved", "cleared", "none"], bounds="three requests in a row, answered with any status 200..599, 2 x 5 x 3 changes of the session, every key of one printable ASCII character, 3 values (thorough: every value of <= 1 character below U+3000)"),
    dict(name="h_expiry", covers=["good", "expired"], bounds="every age <= 4000000 s x every maximum age <= 999 (99999), the default, 0 or none"),
    dict(name="h_altered", covers=["refused", "same data"], bounds="2 cookies with every position replaced by or preceded by every Latin-1 character, removed, cut or rotated"),
    dict(name="h_foreign", covers=["key", "salt", "name", "unsigned", "moved", "none", "null", "empty", "age"], bounds="9 kinds of foreign cookies"),
    dict(name="h_free", covers=["refused"], bounds="every Latin-1 text of <= 3 (4) characters before or after 5 fragments of signed values"),
    dict(name="h_attributes", covers=["attributes", "saved", "cleared"], bounds="all combinations of 6 configured attributes"),
    dict(name="h_values", covers=["values"], bounds="5 JSON objects"),
    dict(name="h_other", covers=["websocket", "lifespan"], bounds="websocket with a good or foreign cookie, lifespan"),
    dict(name="h_large", covers=["large"], bounds="sessions of 41 (201) keys or of 1500 (5000) characters, with any value of one printable character; 61 other cookies"),
]
