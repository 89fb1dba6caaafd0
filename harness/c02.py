"""C02: reversed URLs route back to the same endpoint and parameters."""
import uuid

from hlib import call, http_scope

from starlette.applications import Starlette
from starlette.convertors import CONVERTOR_TYPES, Convertor, register_url_convertor
from starlette.responses import Response
from starlette.routing import Host, Mount, NoMatchFound, Route, Router, WebSocketRoute

GOT = []


def ep(tag):
    async def endpoint(request):
        GOT.append((tag, dict(request.path_params)))
        return Response(b"ok")

    return endpoint


def value(S, name, typ):
    if typ == "str":
        return S.str(name, 1, S.q(3, 5), alphabet="{}xy:a%.? \n\\é")
    if typ == "anystr":
        return S.str(name, 1, S.q(4, 6), exclude="/")
    if typ == "host":
        return S.str(name, 1, S.q(3, 5), alphabet="{}xy-a.\\")
    if typ == "int":
        return S.int(name, 0, 10 ** S.q(9, 15))
    if typ == "path":
        return S.str(name, 0, S.q(3, 4), alphabet="/{}xya.\n")
    if typ == "uuid":
        return uuid.UUID(int=0xC1B4A7E00F2D4B3A9E8F00FF00FF0000 + S.int(name, 0, S.q(255, 65535)))
    raise AssertionError(typ)


def same_params(S, got, want):
    S.check(sorted(got.keys()) == sorted(want.keys()), "parameter names differ after the round trip")
    for k, v in want.items():
        if isinstance(v, uuid.UUID):
            S.check(isinstance(got[k], uuid.UUID) and got[k].int == v.int, "uuid parameter changed in the round trip")
        else:
            S.check(S.eq(got[k], v), "parameter %s changed in the round trip" % k)


def table():
    return [
        Route("/", ep("root"), name="root"),
        Route("/lit", ep("lit"), name="lit"),
        Route("/s/{x}", ep("s"), name="s"),
        Route("/two/{x}/{y}", ep("two"), name="two"),
        Route("/i/{x:int}/end", ep("i"), name="i"),
        Route("/u/{x:uuid}", ep("u"), name="u"),
        Route("/p/{x:path}", ep("p"), name="p"),
        Route("/mix/{x:int}/{y}/{z:path}", ep("mix"), name="mix"),
        Mount("/m/{x}", name="m", routes=[
            Route("/", ep("m:home"), name="home"),
            Route("/c/{y}", ep("m:c"), name="c"),
            Route("/f/{path:path}", ep("m:f"), name="f"),
            Mount("/n/{y:int}", name="n", routes=[Route("/d/{z}", ep("m:n:d"), name="d")]),
        ]),
        Mount("/q", routes=[Route("/r/{x}", ep("r"), name="r")]),
    ]


FLAT = [
    ("root", {}, "root"),
    ("lit", {}, "lit"),
    ("s", {"x": "anystr"}, "s"),
    ("two", {"x": "str", "y": "str"}, "two"),
    ("two", {"y": "str", "x": "str"}, "two"),
    ("i", {"x": "int"}, "i"),
    ("u", {"x": "uuid"}, "u"),
    ("p", {"x": "path"}, "p"),
    ("mix", {"x": "int", "y": "str", "z": "path"}, "mix"),
]
MOUNTED = [
    ("m:home", {"x": "str"}, "m:home"),
    ("m:c", {"x": "str", "y": "str"}, "m:c"),
    ("m:c", {"y": "str", "x": "str"}, "m:c"),
    ("m:f", {"x": "str", "path": "path"}, "m:f"),
    ("m:n:d", {"x": "str", "y": "int", "z": "str"}, "m:n:d"),
    ("r", {"x": "str"}, "r"),
]


def round_trip(S, app, cases, host=False):
    GOT.clear()
    name, types, tag = S.choice("case", cases)
    params = {k: value(S, k, t) for k, t in types.items()}
    url = app.url_path_for(name, **dict(params))
    path = str(url)
    S.observe("path", path)
    S.check(url.protocol == "http", "protocol of an http route")
    headers = []
    if host:
        S.check(len(url.host) > 0, "no host")
        S.observe("host", url.host)
        headers = [(b"host", url.host.encode("latin-1"))]
    ch = call(app, http_scope(path=path, headers=headers))
    S.check(len(GOT) == 1, "the generated path is not routed to the endpoint")
    S.check(GOT[0][0] == tag, "the generated path is routed to a different endpoint")
    same_params(S, GOT[0][1], params)
    S.cover(tag)


def h_flat(S):
    """url_path_for on one route, then matching the result with the same table."""
    round_trip(S, Router(table(), redirect_slashes=False), FLAT)


def h_mounted(S):
    """The same through mounts."""
    round_trip(S, Router(table(), redirect_slashes=False), MOUNTED)


def h_app(S):
    """The same through a Starlette application and request.url_for."""
    round_trip(S, Starlette(routes=table()), [("two", {"x": "str", "y": "str"}, "two"), ("m:n:d", {"x": "str", "y": "int", "z": "str"}, "m:n:d")])


def h_host(S):
    """The same through host routes."""
    app = Router([
        Host("static.org", name="st", app=Router([Route("/a/{x}", ep("st:a"), name="a")])),
        Host("{sub}.example.org", name="h", app=Router([
            Route("/", ep("h:home"), name="home"),
            Route("/u/{x}", ep("h:u"), name="u"),
            Mount("/n/{y}", name="n", routes=[Route("/{x}", ep("h:n:d"), name="d")]),
        ])),
    ], redirect_slashes=False)
    round_trip(S, app, [
        ("st:a", {"x": "str"}, "st:a"),
        ("h:home", {"sub": "host"}, "h:home"),
        ("h:u", {"sub": "host", "x": "str"}, "h:u"),
        ("h:n:d", {"sub": "host", "y": "str", "x": "str"}, "h:n:d"),
    ], host=True)


def h_mount_path(S):
    """A mount reversed by its own name with a path routes into the mounted application."""
    GOT.clear()

    async def inner(scope, receive, send):
        GOT.append((scope["root_path"], scope["path"], dict(scope["path_params"])))
        await Response(b"ok")(scope, receive, send)

    app = Router([Mount("/files/{x}", app=inner, name="files")], redirect_slashes=False)
    x = value(S, "x", "str")
    rel = S.str("path", 0, S.q(3, 5), alphabet="/a{}x.")
    url = app.url_path_for("files", x=x, path=rel)
    call(app, http_scope(path=str(url)))
    S.check(len(GOT) == 1, "not routed into the mount")
    root, path, params = GOT[0]
    S.check(S.eq(params, {"x": x}), "mount parameter changed in the round trip")
    S.check(path == root + "/" + rel.lstrip("/"), "mounted path is not the requested one")
    S.cover("mount")


EXPECT = {
    "root": set(), "lit": set(), "s": {"x"}, "two": {"x", "y"}, "i": {"x"}, "p": {"x"},
    "m:home": {"x"}, "m:c": {"x", "y"}, "m:n:d": {"x", "y", "z"}, "r": {"x"}, "m": {"x", "path"},
    "h:g": {"x", "y"}, "w": {"x"}, "h": {"x", "path"}, "m:n": {"x", "y", "path"}, "m:f": {"x", "path"},
}


def h_nomatch(S):
    """Every name and every parameter set: a path is returned iff both are right."""
    GOT.clear()
    routes = [r for r in table() if r.name not in ("u", "mix")] + [
        WebSocketRoute("/w/{x}", ep("w"), name="w"),
        Host("{x}.org", name="h", app=Router([Route("/g/{y}", ep("h:g"), name="g")])),
    ]
    app = Router(routes)
    if S.flag("known"):
        name = S.choice("name", sorted(EXPECT))
    else:
        name = S.str("anyname", 0, S.q(4, 6), alphabet=":mschriwodptl")
    given = [k for k in ("x", "y", "z", "path") if S.flag("has_" + k)]
    kw = {k: ("1" if k == "path" else 1) for k in given}
    try:
        url = app.url_path_for(name, **kw)
        ok = True
        S.observe("url", str(url))
    except NoMatchFound:
        ok = False
    want = EXPECT.get(name)
    expect = want is not None and want == set(given)
    S.check(ok == expect, "reverse lookup %s for a %s name/parameter set" % ("succeeds" if ok else "fails", "wrong" if ok else "right"))
    S.cover("found" if ok else "notfound")


def h_again(S):
    """Lookups one after the other, of routes that share names: each as on a new router."""

    def build():
        return Router([
            Route("/a", ep("a"), name="n"),
            Route("/b/{x}", ep("b"), name="n"),
            Mount("/m", name="n", routes=[Route("/{y}", ep("m"), name="n"), Route("/{y}/{x}", ep("mx"), name="n")]),
            Mount("/{y}", routes=[Route("/c/{x}", ep("c"), name="n"), Route("/d", ep("d"), name="k")]),
            Host("{y}.org", Router([Route("/h/{x}", ep("h"), name="n")]), name="k"),
        ])

    app = build()
    for i in range(2):
        name = S.choice("name%d" % i, ["n", "k", "n:n", "k:n", "z"])
        kw = {k: S.str("%s%d" % (k, i), 1, 1, alphabet="ab{}") for k in ("x", "y") if S.flag("has_%s%d" % (k, i))}
        answers = []
        for router in (app, build()):
            try:
                url = router.url_path_for(name, **dict(kw))
                answers.append((str(url), url.host, url.protocol))
            except NoMatchFound:
                answers.append(None)
        S.check((answers[0] is None) == (answers[1] is None), "a lookup depends on the one before")
        if answers[0] is not None:
            S.check(S.eq(answers[0], answers[1]), "another path than on a new router")
        S.cover("notfound" if answers[0] is None else "found")


def h_float(S):
    """Floating point parameters: the path is a plain decimal of the same value."""
    GOT.clear()
    scale = S.choice("scale", [1, 8, 10, 1000])
    k = S.int("k", 0, S.q(40, 400))
    big = S.choice("big", [0, 12345, 10 ** 15])
    n = int(str(k)) + big * scale
    value = n / scale if scale > 1 or S.flag("float") else n
    mounted = S.flag("mounted")
    routes = [Route("/f/{x:float}/e", ep("f"), name="f")]
    app = Router([Mount("/m/{y:float}", routes=routes)] if mounted else routes, redirect_slashes=False)
    params = {"x": value, "y": 0.5} if mounted else {"x": value}
    path = str(app.url_path_for("f", **params))
    text = path[path.index("/f/") + 3 : -2]
    S.check(all(c in "0123456789." for c in text) and text[0] != "." and text[-1] != "." and text.count(".") <= 1, "a plain decimal")
    S.check("." not in text or text[-1] != "0", "no trailing zeros")
    call(app, http_scope(path=path))
    S.check(len(GOT) == 1 and GOT[0][1] == params, "not routed back to the same value")
    S.check(isinstance(GOT[0][1]["x"], float), "a float")
    bad = S.choice("bad", [-1.0, -0.5, float("inf"), float("nan")])
    refused = False
    try:
        app.url_path_for("f", **dict(params, x=bad))
    except AssertionError:
        refused = True
    S.check(refused, "a value without a path")
    S.cover("integral" if n % scale == 0 else "fraction")


class Plain(Convertor):
    regex = "[ab]{1,2}"

    def convert(self, value):
        return {"text": value}

    def to_string(self, value):
        return value["text"]


def h_custom(S):
    """Registered convertors are used in both directions."""
    GOT.clear()
    register_url_convertor("plain", Plain())
    try:
        app = Router([Mount("/m/{y:plain}", routes=[Route("/c/{x:plain}/e", ep("c"), name="c")])], redirect_slashes=False)
    finally:
        del CONVERTOR_TYPES["plain"]
    x, y = S.str("x", 1, 2, alphabet="ab"), S.str("y", 1, 2, alphabet="ab")
    path = str(app.url_path_for("c", x={"text": x}, y={"text": y}))
    S.check(S.eq(path, "/m/" + y + "/c/" + x + "/e"), "the path")
    call(app, http_scope(path=path))
    S.check(len(GOT) == 1 and S.eq(GOT[0][1], {"x": {"text": x}, "y": {"text": y}}), "not routed back to the same values")
    GOT.clear()
    other = S.str("other", 1, 3, alphabet="abc/")
    call(app, http_scope(path="/m/a/c/" + other + "/e"))
    fits = S.And(len(other) <= 2, *[S.Or(c == "a", c == "b") for c in other])
    S.check(fits if GOT else S.Not(fits), "matches exactly what the convertor denotes")
    S.cover("custom" if GOT else "custom refused")


ASSUMPTIONS = [
    "parameters are whole path segments (a path-typed one only last), as the statement says; values up to the stated lengths",
    "floating point values are multiples of 1, 1/8, 1/10 and 1/1000 (their integers enumerated by the solver)",
    "UUID values vary in their low 8 (thorough 16) bits",
]
HARNESSES = [
    dict(name="h_flat", covers=["root", "s", "two", "i", "u", "p", "mix"], bounds="8 flat routes; str values of length <= 3 (one route <= 4, any Unicode), ints up to 10^9, path values <= 3; thorough 5/6, 10^15, 4"),
    dict(name="h_mounted", covers=["m:home", "m:c", "m:f", "m:n:d", "r"], bounds="routes under one and two mounts, parameters at every level, value bounds as h_flat"),
    dict(name="h_app", covers=["two", "m:n:d"], bounds="the same through an application object"),
    dict(name="h_host", covers=["st:a", "h:home", "h:u", "h:n:d"], bounds="host-routed tables, value bounds as h_flat"),
    dict(name="h_mount_path", covers=["mount"], bounds="mount reversed by name with a relative path of length <= 3 (thorough 5)"),
    dict(name="h_nomatch", covers=["found", "notfound"], bounds="16 names or any name of length <= 4 (thorough 6) over 12 characters x all 16 parameter-name sets"),
    dict(name="h_again", covers=["found", "notfound"], bounds="two lookups, each of 5 names with any of 4 sets of parameters of one character, in a table of 7 routes that share two names"),
    dict(name="h_float", covers=["integral", "fraction"], bounds="every k/s + b for k <= 40 (400), s in 1, 8, 10, 1000 and b in 0, 12345, 10^15; mounted or not; 4 values without a path"),
    dict(name="h_custom", covers=["custom", "custom refused"], bounds="a registered convertor at two levels; every value of <= 2 and other text of <= 3 characters"),
]
