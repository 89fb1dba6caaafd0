"""C28: CORS headers are granted only to allowed origins."""
from cors_ref import LISTS, REGEXES, allowed, has, kwargs, latin, origin, re_none, tokens
from hlib import Channel, call, drive, http_scope, ws_scope

from starlette.middleware.cors import CORSMiddleware

CORS = (b"access-control-allow-origin", b"access-control-allow-credentials", b"access-control-expose-headers")


class App:
    """Sends a scripted response and keeps what it was given."""

    def __init__(self, messages):
        self.messages = messages
        self.calls = []

    async def __call__(self, scope, receive, send):
        self.calls.append(scope)
        self.receive = receive
        for m in self.messages:
            await send(dict(m))


def response(S, vary=True):
    headers = [(b"x-a", b"1"), (b"content-type", b"t"), (b"x-a", b"2")]
    if vary:
        v = S.choice("vary", [None, [b"Accept"], [b"Origin"], [b"Accept", b"Cookie, X-Origin"]])
        for x in v or []:
            headers.append((b"vary", x))
    body = S.bytes("body", 2, 2)
    msgs = [
        {"type": "http.response.start", "status": S.int("status", 200, 599), "headers": headers},
        {"type": "http.response.body", "body": body[:1], "more_body": True},
        {"type": "http.response.body", "body": body[1:]},
    ]
    return msgs


def request(S, o, cookie, method="GET", extra=()):
    headers = [(b"accept", b"*")]
    if cookie:
        headers.append((b"cookie", b"c"))
    if o is not None:
        headers.append((b"origin", latin(o)))
    headers += list(extra)
    if S.flag("reverse"):
        headers = headers[::-1]
    return http_scope("/", method=method, headers=headers)


def judge(S, cfg, app, ch, scope, o, cookie):
    msgs = app.messages
    S.check(app.calls == [scope], "the application is called once with the scope")
    S.check(len(ch.sent) == len(msgs), "message count")
    S.check(S.eq(ch.sent[1:], msgs[1:]), "body messages")
    start = ch.sent[0]
    S.check(start["type"] == "http.response.start" and S.eq(start["status"], msgs[0]["status"]), "start")
    before = msgs[0].get("headers", [])
    after = list(start["headers"]) if o is not None else start.get("headers", [])
    if o is None:
        S.check(S.eq(start, msgs[0]), "a response to a request without origin")
        S.cover("no origin")
        return
    S.check([h for h in after if h[0] not in CORS + (b"vary",)] == [h for h in before if h[0] != b"vary"], "other headers")
    vary = tokens([v for k, v in after if k == b"vary"])
    for t in tokens([v for k, v in before if k == b"vary"]):
        S.check(S.Or(*[S.eq(t, x) for x in vary]), "the application's Vary")
    acao = [v for k, v in after if k == b"access-control-allow-origin"]
    cred = [v for k, v in after if k == b"access-control-allow-credentials"]
    expose = [v for k, v in after if k == b"access-control-expose-headers"]
    ok = allowed(S, cfg, o)
    if acao:
        S.check(len(acao) == 1, "one Access-Control-Allow-Origin")
        S.check(ok, "granted to an origin that is not allowed")
        star = S.eq(acao[0], b"*")
        own = S.eq(acao[0], latin(o))
        S.check(S.Or(S.And(star, "*" in cfg["allow_origins"]), own), "value is * or the origin")
        S.check(S.Not(S.And(star, cookie, S.Not(own), cfg["allow_credentials"], bool(cred))), "credentials with * on a request with a cookie")
        S.check(S.Or(star, S.Or(*[S.eq(x, "origin") for x in vary])), "Vary: Origin")
        if "*" not in cfg["allow_origins"] or cookie:
            S.check(own, "the origin is echoed")
        S.cover("granted")
    else:
        S.check(S.Not(ok), "nothing granted to an allowed origin")
        S.cover("refused")
    if cfg["allow_credentials"]:
        S.check(has(S, cred, "true"), "credentials")
    else:
        S.check(cred == [], "credentials not configured")
    if cfg["expose_headers"]:
        S.check(has(S, expose, ", ".join(cfg["expose_headers"])), "exposed headers")
    else:
        S.check(expose == [], "exposed headers not configured")


def config(S, full=True):
    r, pred = S.choice("regex", REGEXES)
    return {
        "allow_origins": S.choice("list", LISTS),
        "allow_origin_regex": r,
        "regex": pred,
        "allow_credentials": S.flag("cred"),
        "expose_headers": S.choice("expose", [(), ("X-A", "x-b")]) if full else (),
    }


def h_origin(S):
    """Every origin under every kind of configuration."""
    cfg = config(S, False)
    app = App([{"type": "http.response.start", "status": 200, "headers": [(b"vary", b"Accept")]}, {"type": "http.response.body", "body": b"x"}])
    o = origin(S)
    cookie = S.flag("cookie")
    mw = CORSMiddleware(app, **kwargs(cfg))
    scope = http_scope("/", headers=[(b"cookie", b"c")] * cookie + [(b"origin", latin(o))])
    ch = call(mw, scope)
    judge(S, cfg, app, ch, scope, o, cookie)


def h_response(S):
    """The application's response is otherwise untouched."""
    cfg = config(S)
    app = App(response(S))
    if S.flag("bare"):
        del app.messages[0]["headers"]
    o = S.choice("origin", [None, "ab", "zz"])
    cookie = S.flag("cookie")
    method = S.choice("method", ["GET", "OPTIONS", "POST"])
    scope = request(S, o, cookie, method, [(b"access-control-request-method", b"GET")] if method == "POST" else [])
    mw = CORSMiddleware(app, **kwargs(cfg))
    ch = call(mw, scope)
    judge(S, cfg, app, ch, scope, o, cookie)


def h_own(S):
    """An application that answers CORS by itself does not widen what the middleware grants."""
    cfg = config(S)
    o = S.choice("origin", ["ab", "zz"])
    cookie = S.flag("cookie")
    own = []
    if S.flag("own origin"):
        own.append((b"access-control-allow-origin", S.bytes("value", 0, 2)))
    if S.flag("own expose"):
        own.append((b"access-control-expose-headers", b"z"))
    app = App([{"type": "http.response.start", "status": 200, "headers": own}, {"type": "http.response.body", "body": b""}])
    ch = call(CORSMiddleware(app, **kwargs(cfg)), http_scope("/", headers=[(b"cookie", b"c")] * cookie + [(b"origin", latin(o))]))
    if cfg["expose_headers"]:
        S.check(has(S, ch.header(b"access-control-expose-headers"), ", ".join(cfg["expose_headers"])), "exposed headers")
    if bool(allowed(S, cfg, o)):
        acao = ch.header(b"access-control-allow-origin")
        plain = "*" in cfg["allow_origins"] and not cookie
        S.check(len(acao) == 1, "one Access-Control-Allow-Origin")
        S.check(S.Or(S.And(plain, S.eq(acao[0], b"*")), S.eq(acao[0], latin(o))), "value is * or the origin")
        S.cover("granted")


def h_history(S):
    """A grant to one origin does not leak to the next request."""
    cfg = config(S, False)
    app = App(response(S, False))
    mw = CORSMiddleware(app, **kwargs(cfg))
    for i in range(2):
        o = S.str("o%d" % i, 2, 2, ranges=[(0, 255)]) if S.flag("has%d" % i) else None
        cookie = S.flag("cookie%d" % i)
        scope = http_scope("/", headers=[(b"cookie", b"c")] * cookie + ([(b"origin", latin(o))] if o is not None else []))
        app.calls = []
        ch = call(mw, scope)
        judge(S, cfg, app, ch, scope, o, cookie)
    S.cover("two requests")


def h_other(S):
    """Other connection types and extra message kinds pass through."""
    seen = []
    typ = S.choice("type", ["websocket", "lifespan"])

    async def app(scope, receive, send):
        seen.append((scope, receive, send))

    mw = CORSMiddleware(app, allow_origins=["*"])
    scope = ws_scope("/", headers=[(b"origin", b"o")]) if typ == "websocket" else {"type": "lifespan"}
    ch = Channel([])
    rec, snd = ch.receive, ch.send
    drive(mw(scope, rec, snd))
    S.check(seen == [(scope, rec, snd)], "connection types other than http")
    S.cover(typ)


def h_large(S):
    """Many allowed origins, long ones, and responses of many headers."""
    c = S.str("c", 0, 1, ranges=[(0, 255)])
    base = S.choice("base", ["https://host0.example.com:8443", "https://host69.example.com:8443", "https://host6.example.com", "https://host7.example.com:844"])
    o = S.choice("lead", ["", "x"]) + base + c
    cookie = S.flag("cookie")
    listed = ["https://host%d.example.com:8443" % i for i in range(70)]
    cfg = {"allow_origins": listed + ["*"] * S.flag("any"), "allow_origin_regex": None, "regex": re_none, "allow_credentials": S.flag("cred"), "expose_headers": ["X-%d" % i for i in range(70)]}
    headers = [(b"x-%d" % (i % 50), b"%d" % i) for i in range(130)]
    headers.insert(65, (b"vary", b", ".join(b"V%d" % i for i in range(70))))
    app = App([{"type": "http.response.start", "status": 200, "headers": headers}, {"type": "http.response.body", "body": b"x"}])
    mw = CORSMiddleware(app, **kwargs(cfg))
    for i in range(2):
        app.calls = []
        scope = http_scope("/", headers=[(b"cookie", b"c")] * cookie + [(b"x-%d" % j, b"") for j in range(100)] + [(b"origin", latin(o))])
        judge(S, cfg, app, call(mw, scope), scope, o, cookie)


ASSUMPTIONS = [
    "an application's own CORS headers are considered only where the middleware grants or exposes something itself",
    "origin patterns are those of the family in cors_ref.py, with hand-written reference predicates",
]
HARNESSES = [
    dict(name="h_origin", covers=["granted", "refused"], bounds="every Latin-1 origin of <= 3 (thorough 4) characters, of one character around or inside a listed origin, or of <= 4 (5) characters behind http:// or https://; 5 origin lists x 3 patterns x credentials x cookie"),
    dict(name="h_response", covers=["granted", "refused", "no origin"], bounds="all statuses and 2-byte chunked bodies, 4 Vary headers or no headers at all, both header orders, 3 methods; every configuration incl. exposed headers"),
    dict(name="h_own", covers=["granted"], bounds="an application that sends its own Access-Control-Allow-Origin of <= 2 arbitrary bytes and Access-Control-Expose-Headers or not; every configuration, allowed and refused origins, with and without cookie"),
    dict(name="h_history", covers=["two requests", "granted", "refused"], bounds="two requests to one middleware with every 2-character origin or none, with and without cookie"),
    dict(name="h_other", covers=["websocket", "lifespan"], bounds="websocket and lifespan connections"),
    dict(name="h_large", covers=["granted", "refused"], bounds="70 allowed origins of about 30 characters, with or without *; origins a character longer, shorter or different; 131 response and 101 request headers; two requests"),
]
