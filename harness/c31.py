"""C31: HTTPS redirection keeps the request target."""
from urllib.parse import unquote

from hlib import call, drive, http_scope, ws_scope

from starlette.middleware.httpsredirect import HTTPSRedirectMiddleware


def build():
    calls = []

    async def app(scope, receive, send):
        calls.append((scope, receive, send))

    return HTTPSRedirectMiddleware(app), calls


def location(S, ch, typ):
    S.check(len(ch.sent) == 2, "one complete response")
    prefix = "websocket.http" if typ == "websocket" else "http"
    start = ch.sent[0]
    S.check([m["type"] for m in ch.sent] == [prefix + ".response.start", prefix + ".response.body"], "message types")
    S.check(start["status"] == 307, "status")
    vals = [v for k, v in start["headers"] if k == b"location"]
    S.check(len(vals) == 1, "location")
    S.check(ch.sent[1].get("body", b"") == b"" and not ch.sent[1].get("more_body", False), "body")
    return vals[0].decode("ascii")


def judge(S, ch, calls, scope, host, port, path, query):
    if scope["scheme"] in ("https", "wss"):
        S.check(len(calls) == 1 and calls[0][0] == scope and ch.sent == [], "a secure request reaches the application unchanged")
        S.cover("secure")
        return
    S.check(calls == [], "an insecure request reached the application")
    loc = location(S, ch, scope["type"])
    S.observe("location", loc)
    scheme = {"http": "https", "ws": "wss"}[scope["scheme"]]
    head = scheme + "://" + host
    S.check(S.eq(loc[:len(head)].lower(), head.lower()), "scheme or host")
    rest = loc[len(head):]
    # port: kept unless it is a default one
    cut = len(rest)
    for i, c in enumerate(rest):
        if c == "/":
            cut = i
            break
    got = rest[:cut]
    if isinstance(port, str):
        keep = [":" + port] if port not in ("", "80", "443") else ["", ":" + port] if port == "443" else [""]
        S.check(got in keep if port else got in ("", ":"), "port")
    else:
        S.check(S.If(S.Or(port == 80, port == 443), S.If(S.eq(got, ""), 1, 0), S.If(S.eq(got, ":" + str(port)), 1, 0)) == 1, "port")
    rest = rest[cut:]
    if query:
        k = len(rest)
        for i, c in enumerate(rest):
            if c == "?":
                k = i
                break
        S.check(S.eq(unquote(rest[k + 1:]), unquote(query)), "query")
        rest = rest[:k]
    S.check(S.And(*[S.And(c != "?", c != "#") for c in rest]), "another query or a fragment")
    S.check(S.eq(unquote(rest), path), "path")
    S.cover("redirect")


def make(S, typ, secure):
    if typ == "http":
        return http_scope, "https" if secure else "http"
    return ws_scope, "wss" if secure else "ws"


def h_target(S):
    """Every path and query."""
    mw, calls = build()
    typ = S.choice("type", ["http", "websocket"])
    mk, scheme = make(S, typ, S.flag("secure"))
    host = S.choice("host", ["a.b", "[::1]"])
    port = S.choice("port", ["80", "8443"])
    if S.flag("long"):
        path, query = "/" + S.str("path", 2, S.q(2, 3), ranges=[(0, 0x2FFF)]), ""
    else:
        path = "/" + S.str("path", 0, S.q(1, 2), ranges=[(0, 0x2FFF)])
        query = S.str("query", 0, S.q(1, 2), ranges=[(33, 34), (36, 126)])
    scope = mk(path, scheme=scheme, query=query.encode(), headers=[(b"x", b"y"), (b"host", (host + (":" + port if port else "")).encode())])
    ch = call(mw, scope)
    judge(S, ch, calls, scope, host, port, path, query)


def h_query(S):
    """Reserved characters of a query keep their meaning."""
    mw, calls = build()
    path = S.choice("path", ["/", "/a b", "//x", "/a;b"])
    query = S.str("query", 1, S.q(4, 6), alphabet="a=&%2+/?;:@")
    scope = http_scope(path, query=query.encode(), headers=[(b"host", b"h")])
    ch = call(mw, scope)
    judge(S, ch, calls, scope, "h", "", path, query)
    S.check(location(S, ch, "http").endswith("?" + query), "query text")


def h_host(S):
    """Every host."""
    mw, calls = build()
    typ = S.choice("type", ["http", "websocket"])
    mk, scheme = make(S, typ, S.flag("secure"))
    host = S.str("h", 1, S.q(4, 6), alphabet="abz019.-_AZ") if S.flag("name") else "[" + S.str("v6", 2, S.q(4, 6), alphabet="019af:.") + "]"
    if host[:1] == "[":
        S.assume(valid_v6(host[1:-1]))
    port = S.choice("port", ["", "80", "443", "8000", "800", "8443", "4430", "0"])
    root = S.choice("root", ["", "/r"])
    scope = mk(root + "/p", scheme=scheme, root_path=root, headers=[(b"host", (host + (":" + port if port else "")).encode())])
    ch = call(mw, scope)
    judge(S, ch, calls, scope, host, port, root + "/p", "")


def valid_v6(text):
    import ipaddress

    try:
        ipaddress.IPv6Address(text)
    except ValueError:
        return False
    return True


def h_server(S):
    """Without a Host header the server's address is used, with every port."""
    mw, calls = build()
    typ = S.choice("type", ["http", "websocket"])
    mk, scheme = make(S, typ, S.flag("secure"))
    host = S.choice("host", ["a", "1.2.3.4", "::1"])
    n = S.pick("n", 1, S.q(4, 5))
    port = S.int("port", 10 ** (n - 1), 10 ** n - 1)
    S.assume(port < 65536)
    scope = mk("/p", scheme=scheme, query=b"q")
    scope["server"] = (host, port)
    ch = call(mw, scope)
    judge(S, ch, calls, scope, "[::1]" if host == "::1" else host, port, "/p", "q")


def h_other(S):
    """Connections other than http and websocket pass."""
    mw, calls = build()
    drive(mw({"type": "lifespan"}, None, None))
    S.check(len(calls) == 1, "lifespan")
    S.cover("lifespan")


def other_header(S):
    """A header of any name but host."""
    n = S.choice("length", [1, 2, 5, 9, 12, 15, 16, 17])
    name = S.bytes("name", n, n, ranges=[(45, 45), (48, 57), (97, 122)])
    S.assume(S.Not(name == b"host"))
    return name, S.choice("value", [b"https", b"x", b"q.z", b"1", b"/a"])


def h_header(S):
    """No header but Host has any influence."""
    mw, calls = build()
    typ = S.choice("type", ["http", "websocket"])
    mk, scheme = make(S, typ, S.flag("secure"))
    headers = [(b"host", b"a.b")]
    headers.insert(S.pick("at", 0, 1), other_header(S))
    scope = mk("/p", scheme=scheme, query=b"q", headers=headers)
    ch = call(mw, scope)
    judge(S, ch, calls, scope, "a.b", "", "/p", "q")


ASSUMPTIONS = [
    "the Host header is a well-formed host with an optional numeric port, or there is a server address; host names are case-insensitive",
    "the query is visible ASCII without '#'; characters that may not occur in a URL may be percent-encoded",
]
HARNESSES = [
    dict(name="h_target", covers=["redirect", "secure"], bounds="http and websocket, secure or not; 2 hosts x 2 ports; every path of <= 2 (thorough 3) characters below U+3000, and of <= 1 (2) with every visible-ASCII query of <= 1 (2)"),
    dict(name="h_query", covers=["redirect"], bounds="4 paths x every query of <= 4 (6) over 'a=&%2+/?;:@'"),
    dict(name="h_host", covers=["redirect", "secure"], bounds="every host name of <= 4 (6) letters, digits, dots, hyphens; every IPv6 address of <= 4 (6) characters; 8 ports; mounted or not"),
    dict(name="h_server", covers=["redirect", "secure"], bounds="3 addresses x every port"),
    dict(name="h_other", covers=["lifespan"], bounds="a lifespan connection"),
    dict(name="h_header", covers=["redirect", "secure"], bounds="another header with every name of 1, 2, 5, 9, 12 or 15-17 characters over a-z, 0-9 and - and 5 values"),
]
