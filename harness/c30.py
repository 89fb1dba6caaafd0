"""C30: only trusted hosts reach the application."""
from urllib.parse import unquote

from hlib import call, drive, http_scope, outcome, ws_scope

from starlette.middleware.trustedhost import TrustedHostMiddleware

LISTS = [
    ["ab"],
    ["*.b"],
    ("a", "*.a.b"),
    ["www.a"],
    ["www.a", "a", "b"],
    ["www.*.a"[4:], "www.www.a"],
    [],
    ["[::1]", "*.c"],
    ["q", "*"],
    ["", "www."],
]


def build(S, hosts, redirect=True):
    calls = []

    async def app(scope, receive, send):
        calls.append((scope, receive, send))

    if hosts is None:
        return TrustedHostMiddleware(app, www_redirect=redirect), calls
    return TrustedHostMiddleware(app, allowed_hosts=hosts, www_redirect=redirect), calls


def trusted(S, hosts, host):
    """Formula: host (without port) is trusted; (formula: www.host is listed)."""
    alts, www = [], []
    for p in hosts:
        if p == "*":
            alts.append(True)
        elif p.startswith("*."):
            d = p[1:]
            if len(host) > len(d):
                alts.append(S.eq(host[len(host) - len(d):], d))
        else:
            alts.append(S.eq(host, p))
            www.append(S.eq("www." + host, p))
    return S.Or(*alts), S.Or(*www)


def judge(S, hosts, redirect, scope, host, port, calls, ch, path="/", query=""):
    for p in hosts:
        if p.startswith("*.") and len(host) == len(p) - 1:
            S.assume(S.Not(S.eq(host, p[1:])))  # a name with an empty first label
    ok, www = trusted(S, hosts, host)
    S.check(len(calls) <= 1, "called twice")
    if calls:
        S.check(ok, "an untrusted host reached the application")
        S.check(calls[0][0] == scope and ch.sent == [], "the request reaches the application unchanged")
        S.cover("called")
        return
    S.check(S.Not(ok), "a trusted host was refused")
    prefix = "websocket.http" if scope["type"] == "websocket" else "http"
    start = ch.sent[0]
    S.check(start["type"] == prefix + ".response.start", "message type")
    if start["status"] == 400:
        S.check(S.Not(S.And(redirect, www)), "no redirect to the listed www. host")
        S.cover("400")
        return
    S.check(S.And(redirect, www), "redirected although www. host is not listed or redirects are off")
    S.check(start["status"] in (301, 302, 307, 308), "status of a redirect")
    location = [v for k, v in start["headers"] if k == b"location"]
    S.check(len(location) == 1, "location")
    head = scope["scheme"] + "://www." + host + port
    loc = location[0].decode("ascii")
    S.check(loc.startswith(head), "redirect to another host")
    rest = loc[len(head):]
    if query:
        S.check(rest.endswith("?" + query), "query string")
        rest = rest[:len(rest) - len(query) - 1]
    S.check(S.And(*[S.And(c != "?", c != "#") for c in rest]), "another query or a fragment")
    S.check(S.eq(unquote(rest), path), "path")
    S.cover("redirect")


HOST = [(0, 0x39), (0x3B, 0x5A), (0x5C, 0x5C), (0x5E, 0xFF)]  # without : [ ]


def host_text(S, hosts):
    """A host name without its port."""
    kind = S.choice("kind", ["free", "near", "sub", "v6"])
    if kind == "free":
        return S.str("h", 0, S.q(4, 6), ranges=HOST)
    if kind == "near":
        p = S.choice("p", hosts or ["z"])
        p = p[2:] if p.startswith("*.") else p
        p = p[4:] if p.startswith("www.") and S.flag("bare") else p
        k = S.pick("k", 0, len(p))
        return p[:k] + S.str("c", 0, 1, ranges=HOST) + p[k + S.pick("drop", 0, 1):]
    if kind == "sub":
        p = S.choice("p", hosts or ["z"])
        p = p[2:] if p.startswith("*.") else p
        return S.str("s", 1, 2, ranges=HOST) + S.choice("dot", [".", ""]) + p
    return "[" + S.str("v6", 0, 3, alphabet="0123456789abcdef:.") + "]"


def h_host(S):
    """Every host and port against every list."""
    hosts = S.choice("hosts", LISTS)
    redirect = False
    mw, calls = build(S, hosts, redirect)
    host = host_text(S, hosts)
    port = S.choice("port", ["", ":", ":80"]) if S.flag("plain") else ":" + S.str("port", 1, 2, ranges=[(0, 255)])
    typ = S.choice("type", ["http", "websocket"])
    make = http_scope if typ == "http" else ws_scope
    extra = [(b"x-forwarded-host", b"ab"), (b"hosts", b"ab")]
    scope = make("/", headers=[extra[0], (b"host", (host + port).encode("latin-1")), extra[1]])
    ch = call(mw, scope)
    judge(S, hosts, redirect, scope, host, port, calls, ch)


def h_redirect(S):
    """Redirection to the www. host keeps everything else."""
    hosts = S.choice("hosts", [["www.a"], ["www.a", "b"], ["b", "www.a", "a.b"], ["www.www.a", "*.c"], ["www.a", "a"], ["www.a.c", "www.c", "*.c"]])
    redirect = S.flag("redirect")
    mw, calls = build(S, hosts, redirect)
    host = S.choice("host", ["a", "www.a", "A", "b", "a.c", "c"]) if S.flag("known") else S.str("h", 1, 2, alphabet="abw.c")
    port = S.choice("port", ["", ":8000", ":80"])
    typ = S.choice("type", ["http", "websocket"])
    scheme = S.choice("scheme", ["http", "https"]) if typ == "http" else "http"
    path = "/" + S.str("path", 0, S.q(1, 2), ranges=[(0, 0x2FFF)])
    query = S.str("query", 0, S.q(1, 2), alphabet="a=%2+")
    make = http_scope if typ == "http" else ws_scope
    scope = make(path, scheme=scheme if typ == "http" else {"http": "ws", "https": "wss"}[scheme], headers=[(b"host", (host + port).encode())], query=query.encode())
    ch = call(mw, scope)
    judge(S, hosts, redirect, scope, host, port, calls, ch, path, query)


def h_history(S):
    """One request does not affect the next; several hosts, none, or any."""
    hosts = S.choice("hosts", [["ab", "*.b"], None, ["*"], ["www.a"]])
    mw, calls = build(S, hosts)
    for i in range(2):
        host = S.str("h%d" % i, 1, S.q(3, 4), ranges=HOST) if S.flag("has%d" % i) else None
        scope = http_scope("/", headers=[(b"host", host.encode("latin-1"))] if host is not None else [])
        del calls[:]
        ch = call(mw, scope)
        judge(S, ["*"] if hosts is None else hosts, True, scope, "" if host is None else host, "", calls, ch)
    S.cover("two requests")


def other_header(S):
    """A header of any name but host."""
    n = S.choice("length", [1, 2, 5, 9, 12, 15, 16, 17])
    name = S.bytes("name", n, n, ranges=[(45, 45), (48, 57), (97, 122)])
    S.assume(S.Not(name == b"host"))
    return name, S.choice("value", [b"ab", b"z", b"1"])


def h_header(S):
    """No header but Host has any influence."""
    hosts = S.choice("hosts", [["ab", "*.b"], ["www.z"]])
    mw, calls = build(S, hosts)
    host = S.choice("host", ["ab", "z", "q"])
    headers = [(b"host", host.encode())]
    headers.insert(S.pick("at", 0, 1), other_header(S))
    scope = http_scope("/", headers=headers)
    ch = call(mw, scope)
    judge(S, hosts, True, scope, host, "", calls, ch)


def h_lifespan(S):
    """Lifespan connections pass."""
    mw, calls = build(S, S.choice("hosts", [["a"], None]))
    drive(mw({"type": "lifespan"}, None, None))
    S.check(len(calls) == 1, "lifespan")
    S.cover("lifespan")


def h_patterns(S):
    """Malformed wildcards are refused, well-formed patterns accepted."""
    p = S.str("p", 0, S.q(4, 6), ranges=[(0, 255)])
    others = S.choice("others", [[], ["a"], ["*.b"], ["*"]])
    last = S.flag("last")
    hosts = others + [p] if last else [p] + others
    got = outcome(lambda: build(S, hosts))[0]
    inner = S.Or(*[c == "*" for c in p[1:]])
    lead = len(p) > 1 and S.And(p[0] == "*", p[1] != ".")
    bad = S.Or(inner, lead)
    S.check(S.eq(got == "exc", bad) if isinstance(bad, bool) else (bad if got == "exc" else S.Not(bad)), "malformed wildcard patterns, and no others, are refused")
    S.cover(got)


def h_large(S):
    """Many hosts, and long ones."""
    long = "a" * 60 + "." + "b" * 60 + ".example.org"
    hosts = ["host%d.example.com" % i for i in range(70)] + ["*.sub.example.com", long, "www.example.net", "*." + long]
    if S.flag("reverse"):
        hosts.reverse()
    mw, calls = build(S, hosts)
    base = S.choice("base", ["host0.example.com", "host69.example.com", "host7.example.com", "a.b.c.sub.example.com", "x" * 50 + ".sub.example.com", "sub.example.com", long, "x." + long, "example.net"])
    host = S.str("lead", 0, 1, ranges=HOST) + base + S.str("trail", 0, 1, ranges=HOST)
    port = S.choice("port", ["", ":65535"])
    scope = http_scope("/", headers=[(b"x-%d" % i, b"host0.example.com") for i in range(100)] + [(b"host", (host + port).encode("latin-1"))])
    ch = call(mw, scope)
    judge(S, hosts, True, scope, host, port, calls, ch)


ASSUMPTIONS = [
    "the Host header is a name without ':', '[' and ']' or a bracketed address, optionally followed by ':' and any text; the first Host header counts",
    "hosts are compared exactly (clients send them in lower case); a name that is '.domain' with an empty first label is left open",
]
HARNESSES = [
    dict(name="h_host", covers=["called", "400"], bounds="10 lists x every Latin-1 host of <= 4 (thorough 6) characters, of one inserted or replaced character in a listed one, with 1..2 characters in front of it, or bracketed of <= 3; with no port, a plain one or any 1..2 characters; http and websocket"),
    dict(name="h_redirect", covers=["called", "400", "redirect"], bounds="6 lists x redirect on and off x hosts of <= 2 letters x 3 ports x 3 schemes x every path of <= 1 (2) characters below U+3000 x queries of <= 1 (2)"),
    dict(name="h_history", covers=["two requests", "called", "400", "redirect"], bounds="two requests to one middleware with every Latin-1 host of <= 3 (4) characters or none"),
    dict(name="h_lifespan", covers=["lifespan"], bounds="a lifespan connection"),
    dict(name="h_patterns", covers=["ok", "exc"], bounds="every Latin-1 pattern of <= 4 (6) characters before or after 4 well-formed lists"),
    dict(name="h_header", covers=["called", "400", "redirect"], bounds="another header with every name of 1, 2, 5, 9, 12 or 15-17 characters over a-z, 0-9 and - and 3 values"),
    dict(name="h_large", covers=["called", "400", "redirect"], bounds="74 hosts, some of 130 characters; names with a character in front or behind"),
]
