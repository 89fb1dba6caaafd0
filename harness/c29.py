"""C29: CORS preflights are accepted only for what is configured."""
from cors_ref import ALL_METHODS, LISTS, REGEXES, SAFELISTED, allowed, has, kwargs, latin, origin, tokens
from hlib import call, http_scope

from starlette.middleware.cors import CORSMiddleware

METHODS = [("GET",), ["*"], ("PUT", "x"), (), ("x", "*")]
HEADERS = [(), ["X-Ab", "q"], ("*",), ("q", "*")]


def build(S, cfg):
    calls = []

    async def app(scope, receive, send):
        calls.append(scope)

    return CORSMiddleware(app, **kwargs(cfg)), calls


def preflight(S, o, method, asked):
    headers = [(b"origin", latin(o)), (b"access-control-request-method", latin(method))]
    if asked is not None:
        headers.append((b"access-control-request-headers", latin(asked)))
    return http_scope("/", method="OPTIONS", headers=headers)


def lower(S, name):
    return name.lower()


def judge(S, cfg, ch, calls, o, method, names, asked):
    """names: the requested header names without padding; asked: the header as sent."""
    S.check(calls == [], "a preflight reached the application")
    o_ok = allowed(S, cfg, o)
    methods = ALL_METHODS if "*" in cfg["allow_methods"] else list(cfg["allow_methods"])
    m_ok = S.Or(*[S.eq(method, x) for x in methods])
    known = [h.lower() for h in SAFELISTED + list(cfg["allow_headers"])]
    any_header = "*" in cfg["allow_headers"]
    h_ok = any_header or S.And(*[S.Or(*[S.eq(lower(S, n), k) for k in known]) for n in names])
    ok = S.And(o_ok, m_ok, h_ok)
    S.observe("status", ch.status)
    if ch.status == 200:
        S.check(ok, "preflight accepted although something is not allowed")
        S.cover("accepted")
    else:
        S.check(ch.status == 400, "status")
        S.check(S.Not(ok), "preflight refused although all is allowed")
        S.cover("refused")
    acao = ch.header(b"access-control-allow-origin")
    if acao:
        S.check(o_ok, "granted to an origin that is not allowed")
        own = S.eq(acao[0], latin(o))
        if "*" in cfg["allow_origins"] and not cfg["allow_credentials"]:
            S.check(len(acao) == 1 and S.Or(own, S.eq(acao[0], b"*")), "Access-Control-Allow-Origin is * or the origin")
        else:
            S.check(len(acao) == 1 and own, "the origin is echoed")
        vary = tokens(ch.header(b"vary"))
        S.check(S.Or(S.eq(acao[0], b"*"), S.Or(*[S.eq(x, "origin") for x in vary])), "Vary: Origin")
    else:
        S.check(S.Not(o_ok), "nothing granted to an allowed origin")
    S.check(has(S, ch.header(b"access-control-allow-methods"), ", ".join(methods)), "advertised methods")
    S.check(has(S, ch.header(b"access-control-max-age"), str(cfg["max_age"])), "advertised maximum age")
    ah = ch.header(b"access-control-allow-headers")
    if not any_header:
        S.check(len(ah) == 1 and sorted(tokens(ah)) == sorted(known), "advertised headers")
    elif asked is not None:
        S.check(has(S, ah, asked), "requested headers are mirrored")
    cred = ch.header(b"access-control-allow-credentials")
    S.check(has(S, cred, "true") if cfg["allow_credentials"] else cred == [], "advertised credentials")
    S.check(len(ch.sent) == 2 and len(ch.header(b"content-length")) == 1 and S.eq(ch.header(b"content-length")[0], str(len(ch.body)).encode()), "one complete response")


def config(S):
    r, pred = S.choice("regex", REGEXES)
    return {
        "allow_origins": S.choice("list", LISTS),
        "allow_origin_regex": r,
        "regex": pred,
        "allow_methods": S.choice("methods", METHODS),
        "allow_headers": S.choice("headers", HEADERS),
        "allow_credentials": S.flag("cred"),
        "max_age": 600,
    }


BASE = {"allow_origins": ["ab"], "allow_origin_regex": None, "regex": REGEXES[0][1], "allow_methods": ("GET",), "allow_headers": (), "allow_credentials": False, "max_age": 600}


def h_origin(S):
    """Every origin."""
    r, pred = S.choice("regex", REGEXES)
    cfg = dict(BASE, allow_origins=S.choice("list", LISTS), allow_origin_regex=r, regex=pred, allow_credentials=S.flag("cred"))
    mw, calls = build(S, cfg)
    o = origin(S)
    ch = call(mw, preflight(S, o, "GET", None))
    judge(S, cfg, ch, calls, o, "GET", [], None)


def h_method(S):
    """Every requested method."""
    cfg = dict(BASE, allow_methods=S.choice("methods", METHODS), max_age=S.int("age", 0, S.q(999, 99999)))
    mw, calls = build(S, cfg)
    kind = S.choice("kind", ["free", "near"])
    if kind == "free":
        method = S.str("m", 0, S.q(4, 7), ranges=[(0, 255)])
    else:
        m = S.choice("m", ALL_METHODS)
        k = S.pick("k", 0, len(m))
        method = m[:k] + S.str("c", 0, 1, ranges=[(0, 255)]) + m[k + 1:]
    ch = call(mw, preflight(S, "ab", method, None))
    judge(S, cfg, ch, calls, "ab", method, [], None)


VISIBLE = [(33, 43), (45, 126)]


def name(S, i, listed):
    kind = S.choice("kind%d" % i, ["free", "near"])
    if kind == "free":
        return S.str("h%d" % i, 1, S.q(2, 4), ranges=VISIBLE)
    n = S.choice("n%d" % i, ["X-Ab", "accept", "ACCEPT-LANGUAGE"] if S.thorough else ["X-Ab", "accept"])
    k = S.pick("k%d" % i, 0, len(n) - 1)
    return n[:k] + S.str("c%d" % i, 0, 1, ranges=VISIBLE) + n[k + 1:]


def h_headers(S):
    """Every list of requested headers."""
    cfg = dict(BASE, allow_headers=S.choice("headers", HEADERS))
    mw, calls = build(S, cfg)
    names, text = [], ""
    n = S.pick("n", 1, S.q(2, 3))
    for i in range(n):
        nm = name(S, i, cfg) if i < 2 else S.choice("last", ["q", "Accept", "zz"])
        names.append(nm)
        text = text + (S.choice("sep%d" % i, [",", ", ", " ,\t"]) if i else S.choice("lead", ["", " "])) + nm
    text = text + S.choice("trail", ["", " "])
    ch = call(mw, preflight(S, "ab", "GET", text))
    judge(S, cfg, ch, calls, "ab", "GET", names, text)


def h_config(S):
    """Combinations of allowed and refused parts under every configuration, twice."""
    cfg = config(S)
    mw, calls = build(S, cfg)
    for i in range(2):
        o = S.choice("o%d" % i, ["ab", "zz"])
        method = S.choice("m%d" % i, ["GET", "x"] if i == 0 else ["PUT"])
        names = S.choice("h%d" % i, [None, ["Q"], ["accept", "X-ab"]]) if i == 0 else None
        asked = None if names is None else ",".join(names)
        ch = call(mw, preflight(S, o, method, asked))
        judge(S, cfg, ch, calls, o, method, names or [], asked)


def h_which(S):
    """Only OPTIONS with Origin and Access-Control-Request-Method is a preflight."""
    cfg = dict(BASE, allow_origins=S.choice("list", LISTS))
    mw, calls = build(S, cfg)
    method = S.choice("method", ["GET", "OPTIONS", "PUT", "OPTION"])
    has_o, has_m = S.flag("has_o"), S.flag("has_m")
    headers = []
    if has_o:
        headers.append((b"origin", S.bytes("o", 0, 2)))
    if has_m:
        headers.append((b"access-control-request-method", S.bytes("m", 0, 2)))
    if S.flag("h"):
        headers.append((b"access-control-request-headers", b"q"))
    ch = call(mw, http_scope("/", method=method, headers=headers))
    pre = method == "OPTIONS" and has_o and has_m
    S.check(len(calls) == (0 if pre else 1), "preflights are answered, all else reaches the application")
    S.check((ch.status in (200, 400)) if pre else ch.sent == [], "answer")
    S.cover("preflight" if pre else "request")


def h_large(S):
    """Many methods and headers configured, and asked for."""
    methods = ["VERB%d" % i for i in range(40)]
    headers = ["X-Name-%d" % i for i in range(100)]
    if S.flag("any"):
        headers.insert(50, "*")
    cfg = dict(BASE, allow_methods=methods, allow_headers=headers)
    mw, calls = build(S, cfg)
    method = S.choice("verb", ["VERB0", "VERB39", "VERB", "GET"]) + S.str("m", 0, 1, ranges=[(33, 126)])
    names = ["x-name-%d" % i for i in range(S.choice("asked", [0, 99, 100]))]
    names.insert(S.choice("at", [0, len(names)]), S.choice("last", ["x-name-99", "X-NAME-1", "x-name-"]) + S.str("c", 0, 1, ranges=VISIBLE))
    asked = S.choice("sep", [",", ", "]).join(names)
    ch = call(mw, preflight(S, "ab", method, asked))
    judge(S, cfg, ch, calls, "ab", method, names, asked)


ASSUMPTIONS = [
    "requested header names are of visible ASCII without commas, none empty; padding is spaces and tabs",
    "origin patterns are those of the family in cors_ref.py, with hand-written reference predicates",
    "with all origins allowed without credentials, * and the origin are both accepted as the granted value",
]
HARNESSES = [
    dict(name="h_origin", covers=["accepted", "refused"], bounds="every Latin-1 origin as in C28 under 5 lists x 3 patterns x credentials"),
    dict(name="h_method", covers=["accepted", "refused"], bounds="every Latin-1 method of <= 4 (7) characters or within one character of a standard one; 5 method lists; every maximum age <= 999 (99999)"),
    dict(name="h_headers", covers=["accepted", "refused"], bounds="1..2 (3) requested headers, each every visible-ASCII name of <= 2 (4) characters or within one character of a listed one; 3 paddings; 4 header lists"),
    dict(name="h_config", covers=["accepted", "refused"], bounds="every configuration x allowed and refused parts; two preflights in a row"),
    dict(name="h_which", covers=["preflight", "request"], bounds="4 methods x presence of the headers, values of <= 2 bytes"),
    dict(name="h_large", covers=["accepted", "refused"], bounds="40 methods and 100 headers configured, with or without *; <= 101 headers asked for; one method and one header a character longer or not"),
]
