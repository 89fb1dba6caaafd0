"""C05: slash redirection only when it leads to a route."""
from urllib.parse import unquote

from hlib import call, denotes, http_scope, ws_scope

from starlette.applications import Starlette
from starlette.responses import Response
from starlette.routing import Mount, Route, Router, WebSocketRoute

ROUTES = {
    "a": ("http", "/a", ["/a"]),
    "b/": ("http", "/b/", ["/b/"]),
    "int/": ("http", "/{n:int}/", ["/", ("n", "int"), "/"]),
    "x": ("http", "/{x}", ["/", ("x", "str")]),
    "x/": ("http", "/{x}/", ["/", ("x", "str"), "/"]),
    "ws/": ("ws", "/{w}/", ["/", ("w", "str"), "/"]),
    "ws": ("ws", "/{w}", ["/", ("w", "str")]),
    "m": ("mount", "/a", ["/a"]),
    "deep": ("http", "/a/b/", ["/a/b/"]),
}
TABLES = [["a", "b/"], ["int/", "a"], ["x"], ["x/"], ["m"], ["ws/"], ["ws", "b/"], ["deep", "m"], ["a", "x/"], ["deep", "int/"], []]


def build(names, calls):
    async def endpoint(request):
        calls.append(1)
        return Response(b"ok")

    async def ws_endpoint(websocket):
        calls.append(1)

    async def app(scope, receive, send):
        calls.append(1)
        if scope["type"] == "http":
            await Response(b"ok")(scope, receive, send)

    out = []
    for n in names:
        kind, template, parts = ROUTES[n]
        if kind == "http":
            out.append(Route(template, endpoint, methods=["POST"] if n == "b/" else None))
        elif kind == "ws":
            out.append(WebSocketRoute(template, ws_endpoint))
        else:
            out.append(Mount(template, app=app))
    return out


def any_match(S, names, typ, path):
    for n in names:
        kind, template, parts = ROUTES[n]
        if kind == "ws" and typ == "http" or kind == "http" and typ == "websocket":
            continue
        if kind == "mount":
            parts = parts + ["/", ("p", "path")]
        if bool(denotes(S, parts, path, None)):
            return True
    return False


def toggled(path):
    """The path with the missing slash added, or the trailing slashes removed."""
    if path.endswith("/"):
        while path.endswith("/"):
            path = path[:-1]
        return path
    return path + "/"


def target_ok(S, location, scheme, authority, path, query):
    """location is scheme://authority + path (percent-encoded or not) + the query."""
    head = scheme + "://" + authority
    S.check(location.startswith(head), "redirect leaves the scheme or host of the request")
    rest = location[len(head):]
    got_query = ""
    if query:
        S.check(rest.endswith("?" + query), "query string lost")
        rest = rest[: len(rest) - len(query) - 1]
    S.check(S.And(*[S.And(c != "?", c != "#") for c in rest]), "redirect target has another query or a fragment")
    S.check(S.eq(unquote(rest), path), "redirect target is not the same path with only the slash changed")


def case(S, names, rest, root, kind, redirect=True, typ="http", query="", scheme="http", host="h.org:8000", method="GET"):
    calls = []
    routes = build(names, calls)
    if kind == "app":
        app = Starlette(routes=routes)
        app.router.redirect_slashes = redirect
    else:
        app = Router(routes, redirect_slashes=redirect)
    path = root + rest
    headers = [(b"host", host.encode("latin-1"))] if host is not None else []
    if typ == "http":
        ch = call(app, http_scope(path=path, root_path=root, headers=headers, query=query.encode("ascii"), scheme=scheme, method=method))
    else:
        ch = call(app, ws_scope(path=path, root_path=root, headers=headers), messages=[{"type": "websocket.connect"}])
    S.observe("status", ch.status)
    location = ch.header(b"location")
    direct = any_match(S, names, typ, rest)
    if direct:
        S.cover("direct")
        S.check(location == [], "redirected although a route matches")
        return
    S.check(calls == [], "a handler ran")
    want = redirect and typ == "http" and rest != "/"
    if want:
        want = any_match(S, names, typ, toggled(rest))
    if want:
        S.cover("redirect")
        S.check(ch.status == 307, "no temporary redirect though the other form matches")
        S.check(len(location) == 1, "location")
        S.observe("location", location[0])
        target_ok(S, location[0].decode("ascii"), scheme, ("testserver" if scheme == "http" else "testserver:80") if host is None else host, toggled(path) if rest.endswith("/") else path + "/", query)
    else:
        S.cover("none")
        S.check(location == [], "redirected to a path no route matches")
        if typ == "http":
            S.check(ch.status == 404, "status")
        else:
            S.check([m["type"] for m in ch.sent] == ["websocket.close"], "websocket not closed")


def h_path(S):
    """Redirect or not for every path of every table, and its Location."""
    names = S.choice("table", TABLES)
    kind = S.choice("kind", ["router", "app"])
    root = S.choice("root", ["", "/r"])
    rest = "/" + S.str("rest", 0, S.q(4, 6), alphabet="ab/1.")
    case(S, names, rest, root, kind)


def h_chars(S):
    """Any character in the path, including ones with a meaning in URLs."""
    names = S.choice("table", [["x/"], ["x"], ["int/"]])
    rest = "/" + S.str("rest", 1, S.q(2, 3), ranges=[(0, 0x2FFF)], exclude="/") + S.choice("slash", ["", "/"])
    case(S, names, rest, "", "router")


def h_reserved(S):
    """Paths of URL-significant characters come back unchanged but for the slash."""
    names = ["x", "b/"]
    rest = "/" + S.str("rest", 1, S.q(4, 5), alphabet="a?#%25\n&é") + "/"
    case(S, names, rest, "", "router")


def h_url(S):
    """Scheme, host and query are kept."""
    scheme = S.choice("scheme", ["http", "https"])
    host = None
    if S.flag("has_host"):
        host = S.str("host", 1, S.q(4, 6), alphabet="ab.-:80[]")
    query = S.str("query", 0, S.q(4, 6), alphabet="a=&+/?%20:@")
    case(S, ["a", "b/"], S.choice("rest", ["/a/", "/b", "/c", "/a"]), "", "router", query=query, scheme=scheme, host=host, method=S.choice("method", ["GET", "POST", "HEAD"]))


def h_off(S):
    """No redirection when disabled, or for websockets."""
    names = S.choice("table", TABLES)
    typ = S.choice("type", ["http", "websocket"])
    redirect = S.flag("redirect")
    rest = "/" + S.str("rest", 0, S.q(3, 5), alphabet="ab/1")
    case(S, names, rest, "", S.choice("kind", ["router", "app"]), redirect=redirect, typ=typ)


def h_default(S):
    """Where nothing matches, the default application gets the request as it came; what wraps the router also sees it unchanged."""
    names = S.choice("table", TABLES)
    rest = "/" + S.str("rest", 0, S.q(3, 5), alphabet="ab/1")
    root = S.choice("root", ["", "/r"])
    redirect = S.flag("redirect")
    calls, seen = [], []

    async def default(scope, receive, send):
        seen.append((scope["path"], scope.get("root_path"), dict(scope.get("path_params", {})), "endpoint" in scope))
        await Response(b"default", status_code=299)(scope, receive, send)

    scope = http_scope(path=root + rest, root_path=root, headers=[(b"host", b"h")])
    ch = call(Router(build(names, calls), redirect_slashes=redirect, default=default), scope)
    S.check(S.eq(scope["path"], root + rest), "the path in the scope has changed")
    if any_match(S, names, "http", rest):
        S.check(seen == [] and ch.status != 299, "default runs although a route matches")
        S.cover("direct")
    elif redirect and rest != "/" and any_match(S, names, "http", toggled(rest)):
        S.check(seen == [] and calls == [] and ch.status == 307, "a redirect")
        S.cover("redirect")
    else:
        S.check(len(seen) == 1 and calls == [] and ch.status == 299, "the default application answers")
        S.check(S.And(S.eq(seen[0][0], root + rest), seen[0][1] == root, seen[0][2] == {}, not seen[0][3]), "the scope the default application gets")
        S.cover("default")


ASSUMPTIONS = [
    "11 route tables over 9 route shapes; the request has a Host header or a server address; the query string is ASCII",
]
HARNESSES = [
    dict(name="h_path", covers=["direct", "redirect", "none"], bounds="11 tables x 2 application shapes x 2 roots x paths '/'+<=4 (thorough 6) characters of 5"),
    dict(name="h_chars", covers=["direct", "redirect", "none"], bounds="3 tables x one segment of 1..2 (3) characters from U+0000..U+2FFF, with and without slash"),
    dict(name="h_reserved", covers=["redirect"], bounds="segments of length <= 4 (5) over the URL-significant characters"),
    dict(name="h_url", covers=["direct", "redirect", "none"], bounds="2 schemes x Host absent or of length <= 4 (6) x query of length <= 4 (6) x 3 methods"),
    dict(name="h_off", covers=["direct", "redirect", "none"], bounds="11 tables x http/websocket x redirection on/off x paths '/'+<=3 (5) characters of 4"),
    dict(name="h_default", covers=["direct", "redirect", "default"], bounds="11 tables x redirection on/off x 2 roots x paths '/'+<=3 (5) characters of 4, a router with its own default application"),
]
