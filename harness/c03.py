"""C03: mounted applications see a consistent root_path and path."""
from hlib import call, denotes, http_scope, ws_scope

from starlette.applications import Starlette
from starlette.requests import Request
from starlette.responses import Response
from starlette.routing import Mount, Route, Router, WebSocketRoute

ALPHA = "/ab1.\n" + "é"
MOUNTS = [
    ("/a", ["/a"]),
    ("/a/", ["/a"]),
    ("/a/{x}", ["/a/", ("x", "str")]),
    ("/{x:int}", ["/", ("x", "int")]),
    ("", []),
    ("/{x:path}", ["/", ("x", "path")]),
]


def pick_root(S):
    if S.flag("no_root"):
        return ""
    root = S.str("root", 2, S.q(3, 4), alphabet="/a1b")
    S.assume(root[0] == "/")
    S.assume(root[-1] != "/")
    return root


def boundary(S, rest):
    """The remaining text is empty or starts a new segment."""
    return True if len(rest) == 0 else rest[0] == "/"


def make(kind, app):
    return Starlette(routes=[app]) if kind == "app" else Router([app], redirect_slashes=False)


def check_scope(S, scope, root, path, specs, what):
    """scope seen below the mounts `specs` (template parts, outermost first)."""
    S.check(S.eq(scope["path"], path), what + ": full path changed")
    S.check(S.eq(scope["app_root_path"], root), what + ": original application root not preserved")
    rp = scope["root_path"]
    S.check(path.startswith(rp), what + ": root_path is not a prefix of the path")
    consumed = rp[len(root):]
    S.check(S.eq(rp[: len(root)], root), what + ": root_path does not extend the incoming one")
    parts = []
    for s in specs:
        parts = parts + s
    params = {k: v for k, v in scope["path_params"].items() if k in ("x", "y")}
    S.check(denotes(S, parts, consumed, params), what + ": consumed text is not what the mounts match")
    S.check(boundary(S, path[len(rp):]), what + ": not at a segment boundary")


def h_one(S):
    """One mount: match or not, and the scope the inner application receives."""
    template, parts = S.choice("mount", MOUNTS)
    kind = S.choice("kind", ["http", "ws"])
    root = pick_root(S)
    rest = S.str("rest", 0, S.q(5, 7), alphabet=ALPHA)
    S.assume(boundary(S, rest))
    path = root + rest
    seen = []

    async def inner(scope, receive, send):
        seen.append(dict(scope))
        if scope["type"] == "http":
            await Response(b"ok")(scope, receive, send)

    app = Router([Mount(template, app=inner)], redirect_slashes=False)
    if kind == "http":
        ch = call(app, http_scope(path=path, root_path=root))
    else:
        ch = call(app, ws_scope(path=path, root_path=root))
    if seen:
        S.cover("in")
        scope = seen[0]
        S.observe("scope", [scope["path"], scope["root_path"], scope["app_root_path"], scope["path_params"]])
        S.check(len(seen) == 1, "called more than once")
        check_scope(S, scope, root, path, [parts], "mount")
    else:
        S.cover("out")
        if kind == "http":
            S.check(ch.status == 404, "status")
        S.check(S.Not(denotes(S, parts + ["/", ("r", "path")], rest, None)), "a path below the mount did not reach it")


NESTED = [
    (("/a", ["/a"]), ("/{y:int}", ["/", ("y", "int")])),
    (("/{x}", ["/", ("x", "str")]), ("/a", ["/a"])),
    (("/a", ["/a"]), ("/a", ["/a"])),
    (("", []), ("/b", ["/b"])),
    (("/{x}", ["/", ("x", "str")]), ("", [])),
]


def h_nested(S):
    """The same through two mounts."""
    (t1, p1), (t2, p2) = S.choice("mounts", NESTED)
    kind = S.choice("kind", ["router", "app", "mixed"])
    root = pick_root(S)
    rest = S.str("rest", 0, S.q(6, 8), alphabet="/ab1" + "é")
    S.assume(boundary(S, rest))
    path = root + rest
    seen = []

    def endpoint(tag):
        class Endpoint:
            async def __call__(self, scope, receive, send):
                seen.append((tag, dict(scope)))
                await Response(b"ok")(scope, receive, send)

        return Endpoint()

    inner = Router([Route("/{tail:path}", endpoint("leaf"))], redirect_slashes=False)
    if kind == "router":
        middle = Mount(t2, app=inner)
        app = Router([Mount(t1, routes=[middle])], redirect_slashes=False)
    elif kind == "app":
        app = Starlette(routes=[Mount(t1, routes=[Mount(t2, routes=[Route("/{tail:path}", endpoint("leaf"))])])])
    else:
        app = Router([Mount(t1, app=Starlette(routes=[Mount(t2, app=inner)]))], redirect_slashes=False)
    ch = call(app, http_scope(path=path, root_path=root))
    if seen:
        S.cover("in")
        scope = seen[0][1]
        S.observe("scope", [scope["path"], scope["root_path"], scope["app_root_path"], scope["path_params"]])
        check_scope(S, scope, root, path, [p1, p2], "leaf")
        S.check(S.eq("/" + scope["path_params"]["tail"], path[len(scope["root_path"]):]), "inner routing does not see the full path with root_path removed")
    else:
        S.cover("out")
        S.check(S.Not(denotes(S, p1 + p2 + ["/", ("r", "path")], rest, None)), "a path below both mounts did not reach the inner route")


def h_preset(S):
    """An original application root already in the scope is kept."""
    orig = S.str("orig", 0, 3, alphabet="/ab")
    rest = S.str("rest", 1, S.q(4, 5), alphabet="/ab")
    S.assume(rest[0] == "/")
    seen = []

    async def inner(scope, receive, send):
        seen.append(dict(scope))
        await Response(b"ok")(scope, receive, send)

    app = Router([Mount("/a", app=inner)], redirect_slashes=False)
    call(app, http_scope(path="/r" + rest, root_path="/r", app_root_path=orig))
    if seen:
        S.cover("in")
        S.check(S.eq(seen[0]["app_root_path"], orig), "original application root overwritten")
        S.check(S.eq(seen[0]["root_path"], "/r/a"), "root_path")


def h_sibling(S):
    """A root_path is only removed at a segment boundary."""
    tail = S.str("tail", 0, S.q(4, 6), alphabet="/ab")
    path = "/ab" + tail
    got = []

    async def ep(request):
        got.append(request.path_params["p"])
        return Response(b"ok")

    app = Router([Route("/{p:path}", ep)], redirect_slashes=False)
    ch = call(app, http_scope(path=path, root_path="/ab"))
    if len(tail) == 0:
        S.check(not got and ch.status == 404, "the bare root path was routed")
        return
    S.check(len(got) == 1, "not routed")
    if tail[0] == "/":
        S.cover("below")
        S.check(S.eq("/" + got[0], tail), "root_path not removed")
    else:
        S.cover("sibling")
        S.check(S.eq("/" + got[0], path), "root_path removed inside a segment")


ASSUMPTIONS = [
    "the incoming root_path is empty or a slash-led prefix of the path that ends at a segment boundary (what ASGI servers send)",
]
HARNESSES = [
    dict(name="h_one", covers=["in", "out"], bounds="5 mount templates x http/websocket x incoming root of length 0, 2..3 (thorough 4) x rest of length <= 5 (7) over 7 characters"),
    dict(name="h_nested", covers=["in", "out"], bounds="5 pairs of nested mounts x 3 application shapes x root as above x rest of length <= 6 (8) over 5 characters"),
    dict(name="h_preset", covers=["in"], bounds="preset root of length <= 3, rest <= 4 (5)"),
    dict(name="h_sibling", covers=["below", "sibling"], bounds="tails of length <= 4 (6) over 3 characters"),
]
