"""C01: path templates match exactly the paths they denote."""
import uuid

from hlib import call, denotes, digit, http_scope, ws_scope

from starlette.responses import Response
from starlette.routing import Mount, Route, Router, WebSocketRoute

PUNCT = "/.{}:?#%+-_~ \n\r\t\x00"
PATHS = PUNCT + "ab019x" + "é٣\u2028"


TEMPLATES = [
    ("/", ["/"]),
    ("/a.b", ["/a.b"]),
    ("/a/", ["/a/"]),
    ("/{x}", ["/", ("x", "str")]),
    ("/a/{x:str}/b", ["/a/", ("x", "str"), "/b"]),
    ("/{x:int}", ["/", ("x", "int")]),
    ("/a{x:int}.b", ["/a", ("x", "int"), ".b"]),
    ("/{x:path}", ["/", ("x", "path")]),
    ("/a/{x:path}/b", ["/a/", ("x", "path"), "/b"]),
    ("/{x}-{y}", ["/", ("x", "str"), "-", ("y", "str")]),
    ("/{x:int}/{y:path}", ["/", ("x", "int"), "/", ("y", "path")]),
    ("/{x}{y:int}", ["/", ("x", "str"), ("y", "int")]),
]


def route_case(S, template, parts, path):
    got = []

    async def endpoint(request):
        got.append(dict(request.path_params))
        return Response(b"ok")

    app = Router([Route(template, endpoint)], redirect_slashes=False)
    ch = call(app, http_scope(path=path))
    names = [p[0] for p in parts if not isinstance(p, str)]
    S.observe("status", ch.status)
    if got:
        S.cover("match")
        S.observe("params", got)
        S.check(ch.status == 200 and len(got) == 1, "handler ran but status is not 200")
        S.check(sorted(got[0].keys()) == sorted(names), "wrong parameter names")
        S.check(denotes(S, parts, path, got[0]), "matched a path the template does not denote, or wrong values")
    else:
        S.cover("nomatch")
        S.check(ch.status == 404, "no match but status is not 404")
        S.check(S.Not(denotes(S, parts, path, None)), "did not match a path the template denotes")


def h_route(S):
    """Whether Route.matches accepts a path, and the converted parameters, against a matcher written from the statement."""
    template, parts = S.choice("template", TEMPLATES)
    path = S.str("path", 0, S.q(8, 11), alphabet=PATHS)
    route_case(S, template, parts, path)


def h_websocket(S):
    """The same for websocket routes: which paths they accept, and the converted parameters."""
    template, parts = S.choice("template", TEMPLATES)
    path = S.str("path", 0, S.q(5, 7), alphabet="/.-ab019\n" + "é٣")
    got = []

    async def endpoint(websocket):
        got.append(dict(websocket.path_params))
        await websocket.close(code=4000)

    app = Router([WebSocketRoute(template, endpoint)], redirect_slashes=False)
    ch = call(app, ws_scope(path=path), messages=[{"type": "websocket.connect"}])
    names = [p[0] for p in parts if not isinstance(p, str)]
    S.check(len(ch.sent) == 1 and ch.sent[0]["type"] == "websocket.close", "not closed once")
    if got:
        S.cover("match")
        S.observe("params", got)
        S.check(len(got) == 1 and sorted(got[0].keys()) == sorted(names), "wrong parameter names")
        S.check(denotes(S, parts, path, got[0]), "matched a path the template does not denote, or wrong values")
    else:
        S.cover("nomatch")
        S.check(ch.sent[0]["code"] == 1000, "no match but not closed by the router")
        S.check(S.Not(denotes(S, parts, path, None)), "did not match a path the template denotes")


def h_route_prefix(S):
    """Longer paths: the template's own literal prefix followed by arbitrary text."""
    template, parts = S.choice("template", [t for t in TEMPLATES if isinstance(t[1][0], str) and len(t[1]) > 1])
    path = parts[0] + S.str("rest", S.q(5, 6), S.q(7, 10), alphabet="/-.b01\n")
    route_case(S, template, parts, path)


def h_anychar(S):
    """Any Unicode text, short paths."""
    template, parts = S.choice("template", [t for t in TEMPLATES if len(t[1]) <= 2])
    path = S.str("path", 1, S.q(6, 8))
    route_case(S, template, parts, path)


def uuid_shape(S, text, mask):
    """Formula: text is 8-4-4-4-12 hex digits with the hyphens selected by mask present."""
    want = ""
    for i, n in enumerate((8, 4, 4, 4, 12)):
        want += "x" * n
        if i < 4 and mask >> i & 1:
            want += "-"
    if len(text) != len(want):
        return False
    conds = []
    for w, c in zip(want, text):
        if w == "-":
            conds.append(c == "-")
        else:
            o = ord(c)
            conds.append(S.Or(S.And(o >= 48, o <= 57), S.And(o >= 97, o <= 102), S.And(o >= 65, o <= 70)))
    return S.And(*conds)


def h_uuid(S):
    """{x:uuid}: a canonical UUID text with a window of arbitrary characters."""
    base = "c1b4a7e0-0f2d-4b3a-9e8f-00ff00ff00ff"
    pos = S.choice("pos", [0, 7, 12, 34])
    width = S.q(4, 6)
    delta = S.choice("delta", [0, -1, 1])
    mid = S.str("mid", width + delta, width + delta, alphabet="09afAFg-/\nGé{}")
    text = base[:pos] + mid + base[pos + width :]
    tail = S.choice("tail", ["", "/", "\n"])
    got = []

    async def endpoint(request):
        got.append(request.path_params["x"])
        return Response(b"ok")

    app = Router([Route("/u/{x:uuid}", endpoint)], redirect_slashes=False)
    ch = call(app, http_scope(path="/u/" + text + tail))
    full = text + tail
    ok = S.Or(*[uuid_shape(S, full, mask) for mask in range(16)])
    if got:
        S.cover("match")
        S.check(ok, "matched a text that is not a UUID")
        want = uuid.UUID(full)
        S.check(isinstance(got[0], uuid.UUID) and got[0].int == want.int, "wrong UUID value")
    else:
        S.cover("nomatch")
        S.check(ch.status == 404, "status")
        S.check(S.Not(ok), "did not match a UUID")


def h_float(S):
    """{x:float}: digits, or digits, a dot and digits."""
    got = []

    async def endpoint(request):
        got.append(request.path_params["x"])
        return Response(b"ok")

    app = Router([Route("/f/{x:float}", endpoint)], redirect_slashes=False)
    text = S.str("text", 1, S.q(4, 5), alphabet="015./e+" + "\n")
    ch = call(app, http_scope(path="/f/" + text))
    alts = [S.And(*[digit(c) for c in text])]
    for k in range(1, len(text) - 1):
        alts.append(S.And(text[k] == ".", *[digit(c) for c in text[:k] + text[k + 1 :]]))
    ok = S.Or(*alts)
    if got:
        S.cover("match")
        S.check(ok, "matched a text that is not a decimal")
        whole, _, part = text.partition(".")
        S.check(isinstance(got[0], float) and got[0] == int(str(whole + part)) / 10 ** len(part), "wrong value")
    else:
        S.cover("nomatch")
        S.check(ch.status == 404, "status")
        S.check(S.Not(ok), "did not match a decimal")


MOUNTS = [
    ("/a", ["/a"]),
    ("/a/{x}", ["/a/", ("x", "str")]),
    ("/{x:int}", ["/", ("x", "int")]),
    ("", []),
]


def h_mount(S):
    """A mount matches exactly: template, then '/', then anything."""
    template, parts = S.choice("mount", MOUNTS)
    path = S.str("path", 0, S.q(8, 10), alphabet="/a01b.\n" + "é")
    got = []

    async def inner(scope, receive, send):
        got.append(dict(scope["path_params"]))
        await Response(b"ok")(scope, receive, send)

    app = Router([Mount(template, app=inner)], redirect_slashes=False)
    ch = call(app, http_scope(path=path))
    spec = parts + ["/", ("rest", "path")]
    if got:
        S.cover("match")
        params = dict(got[0])
        names = [p[0] for p in parts if not isinstance(p, str)]
        S.check(sorted(params.keys()) == sorted(names), "mount parameters")
        alts = []
        for k in range(len(path)):
            alts.append(S.And(denotes(S, parts, path[:k], params), path[k] == "/"))
        S.check(S.Or(*alts), "mount matched a path it does not denote")
    else:
        S.cover("nomatch")
        S.check(ch.status == 404, "status")
        S.check(S.Not(denotes(S, spec, path, None)), "mount did not match a path it denotes")


ASSUMPTIONS = [
    "path lengths and alphabets as stated per harness; template families as listed in harness/c01.py",
    "custom convertors are those of C02",
]
HARNESSES = [
    dict(name="h_route", covers=["match", "nomatch"], bounds="12 templates x all paths of length <= 8 (thorough 11) over 29 characters (reserved, digits, letters, controls, non-ASCII)"),
    dict(name="h_websocket", covers=["match", "nomatch"], bounds="12 templates; paths of <= 5 (thorough 7) characters of 11"),
    dict(name="h_route_prefix", covers=["match", "nomatch"], bounds="literal prefix + all tails of length 5..7 (thorough 6..10) over '/-.b01\\n'"),
    dict(name="h_anychar", covers=["match", "nomatch"], bounds="8 templates x all Unicode paths of length 1..6 (thorough 8)"),
    dict(name="h_uuid", covers=["match", "nomatch"], bounds="canonical UUID with a 3..5 (thorough 5..7) character arbitrary window at 4 positions, 3 tails"),
    dict(name="h_mount", covers=["match", "nomatch"], bounds="4 mounts x all paths of length <= 8 (thorough 10) over 8 characters"),
    dict(name="h_float", covers=["match", "nomatch"], bounds="every text of <= 4 (5) characters over 0, 1, 5, ., /, e, + and newline"),
]
