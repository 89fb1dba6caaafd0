"""C06: host-based routing selects by the Host header name only."""
from hlib import call, denotes, http_scope, ws_scope

from starlette.applications import Starlette
from starlette.responses import Response
from starlette.routing import Host, Mount, Route, Router

HOSTS = {
    "lit": ("a.b", ["a.b"]),
    "sub": ("{sub}.b", [("sub", "str"), ".b"]),
    "int": ("n{n:int}.b", ["n", ("n", "int"), ".b"]),
    "any": ("{h}", [("h", "str")]),
    "two": ("{x}-{y}.b", [("x", "str"), "-", ("y", "str"), ".b"]),
}
TABLES = [["lit", "sub"], ["sub", "lit"], ["int", "sub", "any"], ["two", "int"], ["lit"], ["any", "lit"]]


def name_of(S, host):
    """The host header without a port: the text before the first ':'."""
    for i in range(len(host)):
        if host[i] == ":":
            return host[:i]
    return host


def case(S, names, headers, host, typ, app_kind):
    calls = []

    def asgi(tag):
        async def app(scope, receive, send):
            calls.append((tag, dict(scope["path_params"]), scope["path"], scope.get("root_path")))
            if scope["type"] == "http":
                await Response(b"ok")(scope, receive, send)

        return app

    routes = [Host(HOSTS[n][0], app=asgi(n), name=n) for n in names] + [Mount("", app=asgi("fallback"))]
    app = Router(routes) if app_kind == "router" else Starlette(routes=routes)
    if typ == "http":
        call(app, http_scope(path="/p", headers=headers))
    else:
        call(app, ws_scope(path="/p", headers=headers))
    S.check(len(calls) == 1, "not exactly one handler")
    tag, params, path, root = calls[0]
    S.observe("call", [tag, params])
    name = name_of(S, host)
    S.check(path == "/p" and root == "", "host routing changed the path")
    for n in names:
        parts = HOSTS[n][1]
        if n == tag:
            S.check(denotes(S, parts, name, params), "host route chosen for a host it does not denote, or wrong parameters")
            S.check(sorted(params.keys()) == sorted(p[0] for p in parts if not isinstance(p, str)), "parameters")
            S.cover("host:" + n)
            return
        S.check(S.Not(denotes(S, parts, name, None)), "an earlier host route denotes this host but was not chosen")
    S.check(tag == "fallback", "unknown handler")
    S.cover("fallback")


def h_http(S):
    """The route selected for every Host header."""
    names = S.choice("table", TABLES)
    host = S.str("host", 0, S.q(6, 8), alphabet="abn.:-1/8\n" + "é")
    case(S, names, [(b"x-other", b"a.b"), (b"host", host.encode("latin-1")), (b"host", b"a.b")], host, "http", "router")


def h_anybyte(S):
    """Host names of arbitrary bytes."""
    names = S.choice("table", [["lit", "any"], ["sub"]])
    host = S.bytes("host", 1, S.q(3, 5))
    case(S, names, [(b"host", host)], host.decode("latin-1"), "http", "router")


def h_app(S):
    """The same through an application, with other headers present."""
    names = S.choice("table", TABLES[:3])
    typ = S.choice("type", ["http", "websocket"])
    host = S.choice("prefix", ["a", "n1", ""]) + S.str("host", 0, S.q(4, 5), alphabet="ab.:1")
    case(S, names, [(b"host", host.encode("latin-1"))], host, typ, "app")


def h_absent(S):
    """Without a Host header only patterns denoting the empty name could match: none does."""
    names = S.choice("table", TABLES)
    other = S.bytes("other", 0, 4, alphabet=b"host-x")
    S.assume(S.Not(S.eq(other, b"host")))
    case(S, names, [(other, b"a.b")], "", "http", "router")


def h_other(S):
    """No other header has any influence, whatever its name and place."""
    other = S.bytes("other", 0, S.q(20, 32))
    S.assume(S.Not(S.eq(other, b"host")))
    value = S.choice("value", [b"a.b", b"n1.b", b"c"])
    host = S.choice("host", ["a.b", "n2.b", "z", None])
    headers = [] if host is None else [(b"host", host.encode("latin-1"))]
    headers.insert(0 if S.flag("first") else len(headers), (other, value))
    case(S, ["int", "lit"], headers, host or "", S.choice("type", ["http", "websocket"]), S.choice("kind", ["router", "app"]))


def own_elsewhere(outer, parts, own):
    return outer == "same" and own not in [p[0] for p in parts if not isinstance(p, str)]


def h_inside(S):
    """Host routes below a mount, or below another host route, keep the parameters above them."""
    calls = []

    def asgi(tag):
        async def app(scope, receive, send):
            calls.append((tag, dict(scope["path_params"]), scope["path"], scope["root_path"]))
            if scope["type"] == "http":
                await Response(b"ok")(scope, receive, send)

        return app

    names = S.choice("table", [["int", "lit"], ["sub"], ["two"]])
    host = S.str("host", 2, S.q(4, 6), alphabet="an1.b-")
    value = S.str("value", 1, alphabet="a1-")
    routes = [Host(HOSTS[n][0], app=asgi(n), name=n) for n in names]
    outer = S.choice("outer", ["mount", "host", "both", "same"])
    want = {}
    path, root = "/p", ""
    if outer == "same":
        # the same parameter name above: the innermost route's value is the one passed on
        own = [p[0] for n in names for p in HOSTS[n][1] if not isinstance(p, str)][0]
        routes = [Mount("/m/{%s}" % own, routes=routes)]
        root = "/m/" + value
        path = root + "/p"
    elif outer != "mount":
        routes = [Host("{whole}", app=Router(routes))]
        want["whole"] = host
    if outer in ("mount", "both"):
        routes = [Mount("/m/{o}", routes=routes)]
        want["o"] = value
        root = "/m/" + value
        path = root + "/p"
    app = Starlette(routes=routes)
    headers = [(b"host", host.encode("latin-1"))]
    if S.choice("type", ["http", "websocket"]) == "http":
        call(app, http_scope(path=path, headers=headers))
    else:
        call(app, ws_scope(path=path, headers=headers))
    for n in names:
        parts = HOSTS[n][1]
        if bool(denotes(S, parts, host, None)):
            S.check(len(calls) == 1 and calls[0][0] == n, "the first host route that denotes the host")
            tag, params, got_path, got_root = calls[0]
            names_ = set(list(want) + [p[0] for p in parts if not isinstance(p, str)])
            if outer == "same":
                names_.add(own)
            if own_elsewhere(outer, parts, own if outer == "same" else None):
                S.check(S.eq(params.pop(own), value), "a parameter of the mount under another host")
                names_.discard(own)
            S.check(sorted(params) == sorted(names_), "parameters of all levels")
            S.check(S.And(*[S.eq(params[k], want[k]) for k in want]), "values of the outer parameters")
            S.check(denotes(S, parts, host, {k: v for k, v in params.items() if k not in want}), "values of the host's parameters")
            S.check(S.And(S.eq(got_path, path), S.eq(got_root, root)), "path and root path")
            S.cover("host")
            return
    S.check(calls == [], "no host route denotes this host")
    S.cover("none")


ASSUMPTIONS = ["6 tables over 5 host patterns; host names compared as given (no case folding); a port is whatever follows the first ':'"]
HARNESSES = [
    dict(name="h_http", covers=["host:lit", "host:sub", "host:int", "host:any", "host:two", "fallback"], bounds="6 tables x Host of length <= 6 (thorough 8) over 11 characters"),
    dict(name="h_anybyte", covers=["host:any", "fallback"], bounds="2 tables x Host of 1..3 (5) arbitrary bytes"),
    dict(name="h_app", covers=["host:lit", "host:sub", "host:int", "host:any", "fallback"], bounds="3 tables x http/websocket x 3 prefixes + <= 4 (5) characters, through an application"),
    dict(name="h_absent", covers=["fallback"], bounds="6 tables x one other header with any name of length <= 4 over 6 letters"),
    dict(name="h_other", covers=["host:int", "host:lit", "fallback"], bounds="one other header with any name of length <= 20 (32) and a host name as its value, before or after 4 values of (or without) the Host header; http/websocket, router/application"),
    dict(name="h_inside", covers=["host", "none"], bounds="3 tables below a mount, a host route, both, or a mount with the same parameter name x http/websocket x Host of length 2..4 (6) over 6 characters x mount parameter of one"),
]
