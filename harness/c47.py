"""C47: API schemas list exactly the documented endpoints."""
from hlib import call, http_scope

import yaml

from starlette.applications import Starlette
from starlette.endpoints import HTTPEndpoint, WebSocketEndpoint
from starlette.routing import Host, Mount, Route, Router, WebSocketRoute
from starlette.schemas import SchemaGenerator

# (docstring, what it documents)
DOCS = [
    ("responses:\n  200: {description: D%s}\n", "yaml"),
    ("Some text.\n---\nresponses:\n  200: {description: D%s}\n", "yaml"),
    ("Some text.\n---\nmore: text\n---\nresponses:\n  200: {description: D%s}\n", "yaml"),
    (None, None),
    ("Plain text about D%s.", None),
    ("", None),
]
# pieces of paths, and how the schema shows them
PIECES = [("/a", "/a"), ("/{x}", "/{x}"), ("/{n:int}", "/{n}"), ("/f.{p:path}", "/f.{p}"), ("/{u_1:uuid}-{z:float}/e", "/{u_1}-{z}/e"), ("/{s:str}{t:int}", "/{s}{t}")]


class Maker:
    """Builds routes and what should be listed for them."""

    def __init__(self, S):
        self.S = S
        self.count = 0

    def label(self):
        self.count += 1
        return "%d" % self.count

    def doc(self, few=False):
        """(docstring, parsed)"""
        n = self.label()
        text, kind = self.S.choice("doc" + n, DOCS[1:4] if few else DOCS)
        if text and "%s" in text:
            text = text % n
        return text, {"responses": {200: {"description": "D" + n}}} if kind else None

    def piece(self, few=False):
        n = self.label()
        raw, shown = self.S.choice("piece" + n, PIECES[1:4] if few else PIECES)
        return "/r" + n + raw, "/r" + n + shown  # distinct paths

    def function(self, few=False):
        S, n = self.S, self.label()
        text, parsed = self.doc(few)

        def sync(request):
            pass

        async def waiting(request):
            pass

        endpoint = S.choice("async" + n, [sync, waiting])
        if S.flag("method" + n):

            class Holder:
                def handler(self, request):
                    pass

                handler.__doc__ = text

            endpoint = Holder().handler
        else:
            endpoint.__doc__ = text
        methods = S.choice("methods" + n, [None, ["GET"], ["post", "PUT"], ["HEAD"], ["DELETE", "PATCH", "OPTIONS", "GET"]])
        include = S.flag("include" + n)
        raw, shown = self.piece(few)
        ops = {}
        if parsed and include:
            for m in methods or ["GET"]:
                ops[m.lower()] = parsed
            if "get" in ops or "head" in ops:
                ops.pop("head", None)
        return Route(raw, endpoint, methods=methods, include_in_schema=include), {shown: ops}

    def cls(self, few=False):
        S, n = self.S, self.label()
        names = {}
        ops = {}
        for m in ["get", "post", "options", "head"][: 4 if not few else 2]:
            if S.flag(m + n):
                text, parsed = self.doc(True)
                names[m] = make_method(text)
                if parsed and m != "head":
                    ops[m] = parsed
        include = S.flag("include" + n)
        raw, shown = self.piece(True)
        return Route(raw, type("Endpoint", (HTTPEndpoint,), names), include_in_schema=include), {shown: ops if include else {}}

    def socket(self):
        raw, shown = self.piece(True)

        async def endpoint(websocket):
            pass

        endpoint.__doc__ = DOCS[0][0] % "s"

        class Endpoint(WebSocketEndpoint):
            async def get(self):
                pass

            get.__doc__ = DOCS[0][0] % "s"

        return WebSocketRoute(raw, self.S.choice("socket" + self.label(), [endpoint, Endpoint])), {}


def make_method(text):
    async def method(self, request):
        pass

    method.__doc__ = text
    return method


def merged(prefix, items):
    """The operations of a list of items below a prefix."""
    out = {}
    for _, listed in items:
        for path, ops in listed.items():
            if ops:
                out.setdefault(prefix + path, {}).update(ops)
    return out


def check(S, routes, expected, base=None):
    generator = SchemaGenerator({"openapi": "3.0.0", "info": {"title": "T"}} if base is None else base)
    schema = generator.get_schema(routes)
    S.check(schema["openapi"] == "3.0.0" and schema["info"] == {"title": "T"} and set(schema) == {"openapi", "info", "paths"}, "the base schema")
    S.check({p: o for p, o in schema["paths"].items() if o} == expected, "exactly the documented operations")
    S.check(generator.get_schema(routes)["paths"] == schema["paths"], "the same again")
    return schema


def h_function(S):
    """One function endpoint."""
    m = Maker(S)
    item = m.function()
    expected = merged("", [item])
    check(S, [item[0]], expected)
    S.cover("listed" if expected else "empty")


def h_class(S):
    """One endpoint class."""
    m = Maker(S)
    item = m.cls()
    expected = merged("", [item])
    check(S, [item[0]], expected)
    S.cover("listed" if expected else "empty")


def simple(m, S):
    """A small item: a documented function, an undocumented one, a class, a websocket."""
    kind = S.choice("simple" + m.label(), ["function", "undocumented", "hidden", "class", "socket"])
    if kind == "socket":
        return m.socket()
    if kind == "class":
        raw, shown = m.piece(True)
        n = m.label()
        cls = type("Endpoint", (HTTPEndpoint,), {"get": make_method(DOCS[0][0] % n), "post": make_method(None), "head": make_method(DOCS[0][0] % n)})
        return Route(raw, cls), {shown: {"get": {"responses": {200: {"description": "D" + n}}}}}
    raw, shown = m.piece(True)
    n = m.label()

    async def endpoint(request):
        pass

    endpoint.__doc__ = None if kind == "undocumented" else DOCS[1][0] % n
    ops = {"put": {"responses": {200: {"description": "D" + n}}}} if kind == "function" else {}
    return Route(raw, endpoint, methods=["PUT"], include_in_schema=kind != "hidden"), {shown: ops}


def nested(m, S, depth):
    kind = S.choice("kind" + m.label(), ["simple", "mount", "app", "router", "host"] if depth else ["simple"])
    if kind == "simple":
        return simple(m, S)
    items = [nested(m, S, depth - 1) for _ in range(S.pick("n" + m.label(), 0 if depth > 1 else 1, 1 if depth < 2 else S.q(1, 2)))]
    inner = [i[0] for i in items]
    if kind == "host":
        return Host("{sub:str}.org", app=Router(inner)), merged("", items)
    raw, shown = m.piece(True)
    if kind == "mount":
        return Mount(raw, routes=inner), merged(shown, items)
    if kind == "app":
        return Mount(raw + "/", app=Starlette(routes=inner)), merged(shown, items)
    return Mount(raw, app=Router(inner)), merged(shown, items)


def h_tree(S):
    """Routes in mounts, applications, routers and hosts."""
    m = Maker(S)
    items = [nested(m, S, 2)]
    if S.q(0, 1) and S.flag("more"):
        items.append(simple(m, S))
    if S.flag("opaque"):

        async def asgi(scope, receive, send):
            pass

        items.insert(0, (Mount("/opaque", app=asgi), {}))
    expected = merged("", items)
    check(S, [i[0] for i in items], expected)
    S.cover("listed" if expected else "empty")


def documented(label):
    async def endpoint(request):
        pass

    endpoint.__doc__ = DOCS[0][0] % label
    return endpoint


def op(label):
    return {"responses": {200: {"description": "D" + label}}}


def h_shared_path(S):
    """Several routes of one path contribute to one entry."""
    a = S.choice("a", ["GET", "POST", "PUT"])
    b = S.choice("b", ["DELETE", "PATCH", "HEAD"])
    mounted = S.flag("mounted")
    routes = [Route("/p/{x:int}", documented("a"), methods=[a])]
    second = [Route("/{x:path}", documented("b"), methods=[b])]
    routes += [Mount("/p", routes=second)] if mounted else [Route("/p/{x}", documented("b"), methods=[b])]
    ops = {a.lower(): op("a")}
    if b != "HEAD":
        ops[b.lower()] = op("b")
    check(S, routes, {"/p/{x}": ops})
    S.cover("shared")


def h_two_schemas(S):
    """One generator describing two applications keeps them apart."""
    with_paths = S.choice("paths", ["none", "empty", "given"])
    base = {"openapi": "3.0.0", "info": {"title": "T"}}
    given = {"/a": {"post": {"x": 1}}, "/g": {"get": {"x": 2}}}
    if with_paths == "empty":
        base["paths"] = {}
    if with_paths == "given":
        base["paths"] = {p: dict(o) for p, o in given.items()}
    g = SchemaGenerator(base)
    seconds = [[Route("/b", documented("b"))], [], [Route("/a", documented("c"), methods=["DELETE"])]]
    for i in [0] + [1 + S.pick("second%d" % i, 0, 2) for i in range(2)]:
        routes = [[Route("/a", documented("a"))]] + seconds
        expected = {p: dict(o) for p, o in given.items()} if with_paths == "given" else {}
        for r in routes[i]:
            expected.setdefault(r.path, {})[{"DELETE": "delete"}.get(next(iter(r.methods)), "get")] = op({0: "a", 1: "b", 3: "c"}[i])
        S.check(g.get_schema(routes[i])["paths"] == expected, "only this application's operations")
    S.cover(with_paths)


WORD = [("a", "z"), ("A", "Z"), ("0", "9"), ("_", "_")]
FIRST = [("a", "z"), ("A", "Z"), ("_", "_")]
LITERAL = [(" ", "z"), ("|", "|"), ("~", "~"), ("\x80", "\u07ff")]


def h_symbolic_paths(S):
    """Every text of literals, parameter names and converter names."""
    n = S.pick("params", 0, S.q(1, 2))
    raw = shown = "/"
    for i in range(n + 1):
        literal = S.str("literal%d" % i, 0, S.q(2, 3), ranges=LITERAL)
        raw, shown = raw + literal, shown + literal
        if i < n:
            name = S.str("first%d" % i, 1, 1, ranges=FIRST) + S.str("name%d" % i, 0, 1, ranges=WORD)
            convertor = S.str("convertor%d" % i, 0, S.q(2, 3), ranges=WORD)
            raw = raw + "{" + name + (":" + convertor if convertor else "") + "}"
            shown = shown + "{" + name + "}"
    route = Route("/x", documented("a"), methods=["POST"])
    route.path = raw
    routes = [route]
    if S.flag("mounted"):
        routes = [Mount("/m", routes=routes)]
        shown = "/m" + shown
    paths = SchemaGenerator({}).get_schema(routes)["paths"]
    S.check(len(paths) == 1, "one path")
    for path, ops in paths.items():
        S.check(path == shown, "the path without type suffixes")
        S.check(ops == {"post": op("a")}, "one operation")
    S.cover("params%d" % n)


def h_symbolic_methods(S):
    """Every method name."""
    method = S.str("method", 1, S.q(5, 8), ranges=[("a", "z"), ("A", "Z"), ("-", "-")])
    schema = SchemaGenerator({}).get_schema([Route("/x", documented("a"), methods=[method])])
    lower = method.lower()
    if lower == "head":
        S.check(schema["paths"] == {}, "HEAD is not listed")
        S.cover("head")
        return
    ops = schema["paths"]["/x"]
    S.check(len(ops) == 1, "the handler is listed once")
    for name, body in ops.items():
        S.check(name == lower and body == op("a"), "under its lowercased method")
    S.cover("listed")


def h_response(S):
    """The schema endpoint of an application."""
    g = SchemaGenerator({"openapi": "3.0.0", "info": {"title": "T"}})
    m = Maker(S)
    items = [simple(m, S) for _ in range(S.pick("n", 0, 2))]
    app = Starlette(routes=[i[0] for i in items] + [Route("/schema", lambda request: g.OpenAPIResponse(request), include_in_schema=False)])
    ch = call(app, http_scope("/schema"))
    S.check(ch.status == 200 and ch.header(b"content-type") == [b"application/vnd.oai.openapi"], "an OpenAPI document")
    got = yaml.safe_load(ch.body)
    S.check({p: o for p, o in got["paths"].items() if o} == merged("", items) and got["openapi"] == "3.0.0", "of this application")
    S.cover("document")


ASSUMPTIONS = [
    "docstrings and paths are finite choices (YAML and the compilation of paths are not encoded for symbolic texts)",
    "class endpoints are routed without a methods argument; endpoints are functions, methods or endpoint classes",
    "of two routes with the same path and method either may be listed",
]
HARNESSES = [
    dict(name="h_function", covers=["listed", "empty"], bounds="5 docstrings x sync/async/method x 5 method lists x hidden or not x 6 paths"),
    dict(name="h_class", covers=["listed", "empty"], bounds="every subset of get, post, options, head, each with 3 docstrings; hidden or not; 3 paths"),
    dict(name="h_tree", covers=["listed", "empty"], bounds="trees of depth <= 2 of 4 containers, <= 1 (thorough 2) routes each of 5 kinds and 3 paths, plus an opaque mount (thorough: and a second route)"),
    dict(name="h_shared_path", covers=["shared"], bounds="two routes sharing a path after removal of converters, mounted or not"),
    dict(name="h_two_schemas", covers=["none", "empty", "given"], bounds="three consecutive schemas of one generator, base schema without, with empty or with given paths"),
    dict(name="h_symbolic_paths", covers=["params0", "params1"], bounds="paths of <= 1 (thorough 2) parameters with every name of <= 2 and converter name of <= 2 (thorough 3) characters between every literal of <= 2 (thorough 3) characters, mounted or not"),
    dict(name="h_symbolic_methods", covers=["head", "listed"], bounds="every method name of <= 5 (thorough 8) letters and hyphens"),
    dict(name="h_response", covers=["document"], bounds="<= 2 routes of 5 kinds and 3 paths"),
]
