"""C12: request URLs are rebuilt faithfully from the connection."""
from hlib import drive, http_scope, ws_scope, Channel

from starlette.applications import Starlette
from starlette.datastructures import URL, URLPath
from starlette.requests import HTTPConnection, Request
from starlette.responses import Response
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute

DEFAULT = {"http": 80, "https": 443, "ws": 80, "wss": 443}
SPECIAL = "%?#\t\r\n"
PATH = "/a~%?#\n:@;"


def escaped(path):
    out = ""
    for c in path:
        for x in SPECIAL:
            if c == x:
                out = out + "%%%02X" % ord(x)
                break
        else:
            out = out + c
    return out


def connect(S):
    """A scope and its authority (None when there is none)."""
    scheme = S.choice("scheme", ["http", "https", "ws", "wss"])
    headers = [(b"accept", b"*/*")]
    host = None
    if S.flag("has_host"):
        host = S.str("host", 1, S.q(1, 3), alphabet="h.1:")
        headers.append((b"host", host.encode("latin-1")))
        if S.flag("second_host"):
            headers.append((b"host", b"other"))
    addr = S.choice("addr", ["srv", "10.0.0.1", "::1", "fe80::1", None])
    server = None
    if addr is not None:
        port = S.int("port", 0, 65535)
        server = (addr, port)
        if host is None:
            host = "[" + addr + "]" if ":" in addr else addr
            if port != DEFAULT[scheme]:
                host = host + ":" + str(port)
    make = http_scope if scheme in ("http", "https") else ws_scope
    return make(headers=headers, scheme=scheme, server=server), scheme, host


def h_url(S):
    """request.url for every Host header or server, path and query."""
    scope, scheme, host = connect(S)
    path = "/" + S.str("path", 0, S.q(2, 3), alphabet=PATH)
    query = S.bytes("query", 0, S.q(1, 2), alphabet=b"a=&?%/")
    scope["path"], scope["query_string"] = path, query
    scope["root_path"] = S.choice("root", ["", "/a"])
    url = HTTPConnection(scope).url
    want = escaped(path)
    if host is not None:
        want = scheme + "://" + host + want
    if len(query):
        want = want + "?" + query.decode("ascii")
    S.observe("url", str(url))
    S.check(S.eq(str(url), want), "URL text")
    S.check(S.eq(str(URL(scope=scope)), want), "URL made from the scope")
    S.check(url.fragment == "", "a fragment out of nowhere")
    S.check(S.eq(url.query, query.decode("ascii")), "query component")
    if host is not None:
        S.check(S.eq(url.path, escaped(path)), "path component")
        S.check(S.eq(url.netloc, host), "authority")
        S.check(url.scheme == scheme and url.is_secure == (scheme in ("https", "wss")), "scheme")
        S.cover("host")
    else:
        S.cover("relative")


def h_parts(S):
    """The components read back from the URL are those of the connection."""
    scheme = S.choice("scheme", ["http", "https", "ws", "wss"])
    port = S.int("port", 0, 65535)
    addr = S.choice("addr", ["srv", "10.0.0.1", "::1", "a::2", "1:2:3:4:5:6:7:8"])
    scope = http_scope(path="/p", scheme=scheme, server=(addr, port))
    how = S.flag("by_header")
    if how:
        text = ("[" + addr + "]" if ":" in addr else addr) + ":" + str(port)
        scope["headers"] = [(b"host", text.encode("latin-1"))]
    url = Request(scope).url if scheme[0] == "h" else URL(scope=scope)
    S.check(url.hostname == addr, "hostname")
    if how:
        S.check(S.eq(url.port, port), "port of the Host header")
    elif bool(port == DEFAULT[scheme]):
        S.check(url.port is None, "default port shown")
        S.cover("default")
    else:
        S.check(url.port is not None and S.eq(url.port, port), "port of the server")
        S.cover("other")


def h_base(S):
    """request.base_url likewise, in and outside mounts."""
    scope, scheme, host = connect(S)
    scope["path"] = S.choice("path", ["/", "/x/y"])
    scope["query_string"] = S.choice("query", [b"", b"q=1"])
    root = S.choice("lead", ["", "/"])
    if root:
        root = root + S.str("root", 0, S.q(1, 3), alphabet="ab/%?#")
    if S.flag("mounted"):
        scope["app_root_path"] = root
        scope["root_path"] = root + "/mnt"
    else:
        scope["root_path"] = root
    base = HTTPConnection(scope).base_url
    path = root
    if not path.endswith("/"):
        path = path + "/"
    want = escaped(path)
    if host is not None:
        want = scheme + "://" + host + want
    S.check(S.eq(str(base), want), "base URL text")
    S.check(base.query == "" and base.fragment == "", "base URL has a query or fragment")
    S.observe("base", str(base))
    S.cover("base")


def strip(p):
    while len(p) and p[-1] == "/":
        p = p[:-1]
    return p


def h_absolute(S):
    """URLPath.make_absolute_url."""
    scheme = S.choice("scheme", ["http", "https", "ws", "wss"])
    netloc = S.choice("netloc", ["h", "h:81", "u:p@h", "[::1]:8"])
    root = S.choice("lead", ["", "/"])
    if root:
        root = root + S.str("root", 0, S.q(2, 4), alphabet="ab/%")
    tail = S.choice("tail", ["", "?q=1", "#f"])
    path = "/" + S.str("path", 0, S.q(2, 4), alphabet="ab/:@%")
    protocol = S.choice("protocol", ["", "http", "websocket"])
    host = S.choice("host", ["", "api.h"])
    base = scheme + "://" + netloc + root + tail
    up = URLPath(path, protocol=protocol, host=host)
    got = up.make_absolute_url(base if S.flag("text") else URL(base))
    secure = scheme in ("https", "wss")
    sch = {"": scheme, "http": "https" if secure else "http", "websocket": "wss" if secure else "ws"}[protocol]
    S.check(S.eq(str(got), sch + "://" + (host or netloc) + strip(root) + path), "absolute URL")
    S.check(got.scheme == sch and S.eq(got.path, strip(root) + path), "components")
    S.check(S.eq(str(up), path), "the path itself")
    S.cover(protocol or "none")


def h_url_for(S):
    """url_for inside nested applications, for http, websocket and host routes."""
    seen = []
    via = S.choice("via", ["top", "mount", "host", "nested", "nested host"])
    secure = S.flag("secure")
    arg = S.str("arg", 1, S.q(2, 3), alphabet="ab:@.")
    target = S.choice("target", ["item", "sock", "mnt:deep", "sub:deep"])
    root = S.choice("root", ["", "/app", "/app/v1"])

    async def endpoint(request):
        name = target if via == "top" else target
        seen.append(request.url_for(target, x=arg))
        seen.append(request.base_url)
        return Response(b"")

    async def sock(websocket):
        pass

    async def deep(request):
        return await endpoint(request)

    app = Starlette(routes=[
        Route("/i/{x}", endpoint, name="item"),
        WebSocketRoute("/w/{x}", sock, name="sock"),
        Mount("/m", routes=[Route("/d/{x}", deep, name="deep")], name="mnt"),
        Mount("/n/{y}", routes=[Mount("/o", routes=[Route("/d/{x}", deep)]), Host("in.h", app=Router([Mount("/q", routes=[Route("/d/{x}", deep)])]))]),
        Host("sub.h", app=Router([Route("/s/{x}", deep, name="deep")]), name="sub"),
    ])
    rel = {"item": "/i/", "sock": "/w/", "mnt:deep": "/m/d/", "sub:deep": "/s/"}[target] + arg
    path = {"top": "/i/1", "mount": "/m/d/1", "host": "/s/1", "nested": "/n/1/o/d/2", "nested host": "/n/1/q/d/2"}[via]
    authority = {"top": "h:81", "mount": "h:81", "host": "sub.h", "nested": "h:81", "nested host": "in.h"}[via]
    scheme = "https" if secure else "http"
    scope = http_scope(path=root + path, root_path=root, scheme=scheme, headers=[(b"host", authority.encode())], query=b"q=1")
    ch = Channel()
    drive(app(scope, ch.receive, ch.send))
    S.check(ch.status == 200, "not served")
    sch = scheme if target != "sock" else {"http": "ws", "https": "wss"}[scheme]
    net = "sub.h" if target == "sub:deep" else authority
    # inside a mount the routes are those of the application (its router is the outermost)
    S.check(S.eq(str(seen[0]), sch + "://" + net + root + rel), "url_for")
    S.check(S.eq(str(seen[1]), scheme + "://" + authority + root + "/"), "base_url")
    S.cover(via)
    S.cover(target)


def h_other(S):
    """No header but Host has any influence."""
    n = S.choice("length", [1, 2, 5, 9, 14, 15, 16, 17])
    name = S.bytes("name", n, n, ranges=[(45, 45), (48, 57), (97, 122)])
    S.assume(S.Not(name == b"host"))
    value = S.bytes("value", 1, 2, ranges=[(33, 126)])
    first = S.flag("first")
    given = S.flag("given")
    headers = [(b"host", b"h:81")] if given else []
    headers = [(name, value)] + headers if first else headers + [(name, value)]
    scope = http_scope("/a", scheme="http", headers=headers, query=b"q=1", root_path="/r", server=("s", 8080))
    c = HTTPConnection(scope)
    S.check(S.eq(str(c.url), ("http://h:81" if given else "http://s:8080") + "/a?q=1"), "the URL")
    S.check(S.eq(str(c.base_url), ("http://h:81" if given else "http://s:8080") + "/r/"), "the base URL")
    S.cover("given" if given else "server")


ASSUMPTIONS = [
    "Host headers of latin-1 text; servers are (host name or IP address, port); query strings are ASCII; the root path is empty or starts with '/'",
    "a reversed path and a base path contain no '?' or '#' (they are URL text already)",
]
HARNESSES = [
    dict(name="h_url", covers=["host", "relative"], bounds="4 schemes x Host header (length 1 (thorough 3), also repeated) or server (4 addresses x every port) or none x paths of length <= 3 (4) incl. % ? # newline x queries of length <= 1 (2)"),
    dict(name="h_parts", covers=["default", "other"], bounds="4 schemes x 5 addresses x every port x by server or Host header"),
    dict(name="h_base", covers=["base"], bounds="as h_url, root paths of length <= 2 (4), mounted or not"),
    dict(name="h_absolute", covers=["none", "http", "websocket"], bounds="4 schemes x 4 authorities x base paths and paths of length <= 3 (5) x 3 protocols x own host or not"),
    dict(name="h_url_for", covers=["top", "mount", "host", "nested", "nested host", "item", "sock", "mnt:deep", "sub:deep"], bounds="4 route kinds called from 5 places x 3 root paths x parameter of length <= 2 (3)"),
    dict(name="h_other", covers=["given", "server"], bounds="any other header: every name of 1, 2, 5, 9 or 14-17 characters over a-z, 0-9 and -, every printable value of 1 or 2"),
]
