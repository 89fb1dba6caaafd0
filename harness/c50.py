"""C50: template responses escape values and use their own request."""
import atexit
import os
import shutil
import tempfile
import warnings

import jinja2

from hlib import call, http_scope

from starlette.applications import Starlette
from starlette.background import BackgroundTask
from starlette.requests import Request
from starlette.routing import Mount, Route
from starlette.templating import Jinja2Templates

warnings.simplefilter("ignore")

FILES = {
    "text.html": "<p>{{ value }}</p>",
    "attr.html": "<a title=\"{{ value }}\" id='{{ other }}'>{% for x in many %}[{{ x }}]{% endfor %}</a>",
    "base.html": "<b>{% block body %}{% endblock %}</b>",
    "child.html": "{% extends 'base.html' %}{% block body %}{{ value }}{% if other %}|{{ other }}{% endif %}{% endblock %}",
    "page.txt": "{{ value }}",
    "url.html": "{{ url_for('item', key=value) }}|{{ request.url.path }}",
    "safe.html": "{{ value }}-{{ other }}",
    "who.html": "{{ request.headers['x-user'] }}|{{ a }}|{{ b }}|{{ c }}",
    "none.html": "constant <&> {{ missing }}",
}
DIR = tempfile.mkdtemp()
PID = os.getpid()
atexit.register(lambda: os.getpid() == PID and shutil.rmtree(DIR, ignore_errors=True))
for _name, _text in FILES.items():
    with open(os.path.join(DIR, _name), "w") as _f:
        _f.write(_text)

ALPHABET = [(32, 126), (128, 0x2FF), (0x4E00, 0x4E10)]
ENTITIES = {"&": "&amp;", "<": "&lt;", ">": "&gt;", "'": "&#39;", '"': "&#34;"}


def escaped(text):
    """The text with the characters that are special in HTML replaced."""
    out = ""
    for c in text:
        for special, entity in ENTITIES.items():
            if c == special:
                out = out + entity
                break
        else:
            out = out + c
    return out


def make(kind, **kw):
    """Templates however they are configured."""
    if kind == "env":
        return Jinja2Templates(env=jinja2.Environment(loader=jinja2.FileSystemLoader(DIR), autoescape=True), **kw)
    if kind == "list":
        return Jinja2Templates([os.path.join(DIR, "nothing"), DIR], **kw)
    if kind == "options":
        return Jinja2Templates(DIR, trim_blocks=True, **kw)
    return Jinja2Templates(DIR, **kw)


KINDS = ["dir", "list", "options", "env"]


def respond(response):
    return call(response, http_scope())


def h_escape(S):
    """Interpolated values, in texts, attributes, loops, inherited blocks and any file type."""
    name = S.choice("name", ["text.html", "attr.html", "child.html", "page.txt"])
    templates = make(S.choice("kind", KINDS))
    n = S.q(2, 3)
    value = S.str("value", 0, n, ranges=ALPHABET)
    other = S.str("other", 0, 1, ranges=ALPHABET) if name in ("attr.html", "child.html") else ""
    response = templates.TemplateResponse(Request(http_scope()), name, {"value": value, "other": other, "many": [value, other]})
    e, o = escaped(value), escaped(other)
    want = {
        "text.html": "<p>" + e + "</p>",
        "attr.html": '<a title="' + e + "\" id='" + o + "'>[" + e + "][" + o + "]</a>",
        "child.html": "<b>" + e + ("|" + o if len(o) else "") + "</b>",
        "page.txt": e,
    }[name]
    ch = respond(response)
    S.check(S.eq(ch.body, want.encode("utf-8")), "the rendered text")
    S.check(ch.status == 200 and ch.header(b"content-type") == [b"text/html; charset=utf-8"], "an HTML response")
    S.check(ch.header(b"content-length") == [str(len(ch.body)).encode()], "its length")
    S.cover(name)


class Text:
    """An object whose text is given."""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


class Marked:
    """An object that provides its own HTML."""

    def __init__(self, text):
        self.text = text

    def __html__(self):
        return self.text


def h_safe(S):
    """Objects are escaped by their text, except the HTML an object provides itself."""
    templates = make(S.choice("kind", KINDS))
    value = S.str("value", 0, S.q(2, 3), ranges=ALPHABET)
    number = S.int("number", -5, 1000)
    response = templates.TemplateResponse(Request(http_scope()), "safe.html", {"value": Marked(value), "other": number})
    S.check(S.eq(respond(response).body, (value + "-" + str(number)).encode("utf-8")), "marked HTML is kept")
    response = templates.TemplateResponse(Request(http_scope()), "safe.html", {"value": value, "other": Marked(value)})
    S.check(S.eq(respond(response).body, (escaped(value) + "-" + value).encode("utf-8")), "for that value only")
    response = templates.TemplateResponse(Request(http_scope()), "none.html")
    S.check(respond(response).body == b"constant <&> ", "the template's own text is kept")
    S.cover("kept")


def h_url_for(S):
    """url_for in a template is the request's url_for."""
    key = S.str("key", 1, S.q(2, 3), ranges=[(33, 46), (48, 126)])
    root = S.choice("root", ["", "/root"])
    mounted = S.flag("mounted")
    kind = S.choice("kind", KINDS)
    templates = make(kind)
    taken = S.flag("taken")
    if taken:
        templates.env.globals["url_for"] = lambda name, **kw: "mine"
    responses = []

    async def endpoint(request):
        name = "m:item" if mounted else "item"
        source = templates.env.from_string("{{ url_for('" + name + "', key=value) }}|{{ url_for('" + name + "', key='k').path }}")
        response = templates.TemplateResponse(request, "text.html", {"value": key})
        text = source.render({"request": request, "value": key})
        responses.append((text, request.url_for(name, key=key)))
        return response

    routes = [Route("/i/{key}", endpoint, name="item")]
    app = Starlette(routes=[Mount("/m", routes=routes, name="m")] if mounted else routes)
    path = ("/m" if mounted else "") + "/i/"
    ch = call(app, http_scope(root + path + "x", root_path=root, headers=[(b"host", b"h.org:81")]))
    S.check(ch.status == 200, "the endpoint answers")
    text, url = responses[0]
    if taken:
        S.cover("mine")
        return
    S.check(S.eq(str(url)[: 15 + len(root + path)], "http://h.org:81" + root + path), "the URL of the route")
    S.check(S.eq(text, escaped(str(url)) + "|" + root + path + "k"), "the URL in the template")
    S.cover("url")


def render_with(templates, style, request, name, context, **kw):
    """The ways of passing the arguments."""
    order = ["status_code", "headers", "media_type", "background"]
    rest = [kw[k] for k in order if k in kw]
    if style == "positional":
        return templates.TemplateResponse(request, name, context, *rest)
    if style == "mixed":
        return templates.TemplateResponse(request, name, context=context, **kw)
    if style == "keywords":
        return templates.TemplateResponse(request=request, name=name, context=context, **kw)
    context = dict(context or {})
    context["request"] = request
    if style == "old positional":
        return templates.TemplateResponse(name, context, *rest)
    if style == "old mixed":
        return templates.TemplateResponse(name, context=context, **kw)
    return templates.TemplateResponse(name=name, context=context, **kw)


STYLES = ["positional", "mixed", "keywords", "old positional", "old mixed", "old keywords"]


def h_arguments(S):
    """Status, headers, media type and background task, in every way of passing them."""
    style = S.choice("style", STYLES)
    given = S.pick("given", 0, 4)
    status = S.int("status", 200, 599)
    hval = S.str("hval", 0, 2, ranges=[(32, 255)])
    media = S.choice("media", [None, "text/plain", "application/xml"])
    value = S.str("value", 0, 1, ranges=ALPHABET)
    log = []

    async def task():
        log.append("task")

    args = [("status_code", status), ("headers", {"X-H": hval}), ("media_type", media), ("background", BackgroundTask(task))]
    kw = dict(args[:given])
    if "positional" not in style and S.flag("reversed"):
        kw = dict(args[4 - given :])
    response = render_with(make("dir"), style, Request(http_scope()), "text.html", {"value": value}, **kw)
    ch = respond(response)
    S.check(S.eq(ch.status, status if "status_code" in kw else 200), "status")
    S.check(S.eq(ch.header(b"x-h"), [hval.encode("latin-1")] if "headers" in kw else []), "headers")
    media = kw.get("media_type") or "text/html"
    S.check(ch.header(b"content-type") == [media.encode() + (b"; charset=utf-8" if media.startswith("text/") else b"")], "media type")
    S.check(log == (["task"] if "background" in kw else []), "background task")
    S.check(S.eq(ch.body, ("<p>" + escaped(value) + "</p>").encode("utf-8")), "body")
    S.cover(style)


def h_context(S):
    """What a template sees: given values, the request, and the processors' values on top."""
    style = S.choice("style", STYLES)
    names = ["a", "b", "c"][: S.q(2, 3)]
    texts = [S.str(who, 1, 1, ranges=[("a", "z")]) for who in ("given", "first", "second")]
    user = S.str("user", 1, 1, ranges=[("a", "z")])
    sets = [[n for n in names if S.flag(who + n)] for who in ("given", "first", "second")]
    nprocessors = S.pick("processors", 0, 2)
    none = not sets[0] and S.flag("none")
    seen = []

    def processor(i):
        def run(request):
            seen.append(request)
            return {n: texts[i] for n in sets[i]}

        return run

    templates = make("dir", context_processors=[processor(i + 1) for i in range(nprocessors)] if nprocessors else None)
    given = None if none else {n: texts[0] for n in sets[0]}
    request = Request(http_scope(headers=[(b"x-user", user.encode("latin-1"))]))
    response = render_with(templates, style, request, "who.html", given)
    values = {}
    for i in range(1 + nprocessors):
        for n in sets[i]:
            values[n] = texts[i]
    want = escaped(user) + "".join(["|" + escaped(values[n]) if n in values else "|" for n in ["a", "b", "c"]])
    S.check(S.eq(respond(response).body, want.encode("utf-8")), "the values")
    S.check(len(seen) == nprocessors and all(r is request for r in seen), "the processors get the request")
    S.check(response.context["request"] is request and set(response.context) == set(values) | {"request"}, "the context of the response")
    S.cover(style)


def h_shared(S):
    """Responses to different requests, from the same templates and the same given values."""
    styles = [S.choice("style%d" % i, STYLES) for i in range(2)]
    shared = S.choice("shared", ["dict", "default", "separate"])
    users = [S.str("user%d" % i, 1, 1, ranges=[(33, 126)]) for i in range(2)]
    only = S.flag("only first")
    calls = []

    def processor(request):
        calls.append(request)
        if only and len(calls) > 1:
            return {}
        return {"b": request.headers["x-user"]}

    templates = make("dir", context_processors=[processor])
    common = {"a": "A"}
    requests, responses = [], []
    for i in range(2):
        requests.append(Request(http_scope(headers=[(b"x-user", users[i].encode("latin-1"))])))
        context = common if shared == "dict" else {"a": "A"} if shared == "separate" else None
        responses.append(render_with(templates, styles[i], requests[i], "who.html", context))
    a = "" if shared == "default" else "A"
    for i in range(2):
        b = "" if only and i else escaped(users[i])
        S.check(S.eq(respond(responses[i]).body, (escaped(users[i]) + "|" + a + "|" + b + "|").encode("utf-8")), "each response is about its own request")
        S.check(responses[i].context["request"] is requests[i], "its context")
    S.check(common == {"a": "A"}, "the given values are left as they are")
    S.cover(shared)


def h_debug(S):
    """Test clients are told the template and the context; others get the response only."""
    wanted = S.flag("wanted")
    other = S.flag("other")
    extensions = {"http.response.debug": {}} if wanted else {"other": {}} if other else None
    scope = http_scope()
    if extensions is not None:
        scope["extensions"] = extensions
    value = S.str("value", 0, 1, ranges=ALPHABET)
    response = make("dir").TemplateResponse(Request(scope), "text.html", {"value": value})
    ch = call(response, scope)
    kinds = [m["type"] for m in ch.sent]
    S.check(kinds == (["http.response.debug"] if wanted else []) + ["http.response.start", "http.response.body"], "messages")
    if wanted:
        info = ch.sent[0]["info"]
        S.check(info["template"].name == "text.html" and S.eq(info["context"]["value"], value) and info["context"]["request"] is not None, "the information")
        S.cover("told")
    else:
        S.cover("plain")


ASSUMPTIONS = [
    "Jinja2 runs as it is; markupsafe's escape and the concatenation of rendered pieces are transcribed for symbolic texts (replays use the real ones)",
    "processors return values for the names a, b, c; a processor's values replace given ones of the same name",
    "templates and their options are fixed",
]
HARNESSES = [
    dict(name="h_escape", covers=["text.html", "attr.html", "child.html", "page.txt"], bounds="every value of <= 2 (thorough 3) characters in 4 templates (text, attributes and loop, inherited block, .txt) x 4 configurations"),
    dict(name="h_safe", covers=["kept"], bounds="every HTML text of <= 2 (3) characters, numbers -5..1000, 4 configurations"),
    dict(name="h_url_for", covers=["url", "mine"], bounds="every parameter of <= 2 (3) printable ASCII characters except /, root path, mounted or not, own url_for"),
    dict(name="h_arguments", covers=STYLES, bounds="6 ways of passing 0-4 arguments (prefixes, or suffixes by keyword), any status, header value of <= 2 latin-1 characters, 3 media types"),
    dict(name="h_context", covers=STYLES, bounds="6 ways x given values and 0-2 processors setting any subset of 2 (3) names to any letter"),
    dict(name="h_shared", covers=["dict", "default", "separate"], bounds="two requests with any user, 6 x 6 ways, shared or separate values, processor whose values depend on the request"),
    dict(name="h_debug", covers=["told", "plain"], bounds="with or without the debug extension"),
]
