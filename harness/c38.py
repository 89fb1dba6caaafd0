"""C38: debug pages escape everything they show."""
import linecache

from hlib import Channel, drive, http_scope

from starlette.applications import Starlette
from starlette.middleware.errors import ServerErrorMiddleware
from starlette.routing import Route

ENTITIES = {"amp": "&", "lt": "<", "gt": ">", "quot": '"', "#x27": "'", "#39": "'"}
FILE = "<virtual>"
CODE = "def run(exc):\n    raise exc\n"


def program(filename=FILE, name="run", lines=None):
    """A function raising its argument, whose source is what linecache says it is."""
    if lines is not None:
        linecache.cache[filename] = (1, None, lines, filename)
    else:
        linecache.cache.pop(filename, None)
    ns = {}
    exec(compile(CODE, filename, "exec"), ns)
    f = ns["run"]
    f.__code__ = f.__code__.replace(co_name=name)
    return f


def page(func, exc, accept=b"text/html"):
    async def app(scope, receive, send):
        func(exc)

    ch = Channel()
    try:
        drive(ServerErrorMiddleware(app, debug=True)(http_scope(headers=[(b"accept", accept)]), ch.receive, ch.send))
    except Exception as e:
        assert e is exc
    return ch


def regions(S, html, ref, mark):
    """The parts of html at the places where ref has mark; everything else must agree."""
    segs = ref.split(mark)
    n = len(segs) - 1
    S.check(n >= 1, "the text is shown")
    left = len(html) - sum([len(s) for s in segs])
    S.check(left >= 0 and left % n == 0, "the shape of the page")
    k = left // n
    out = []
    pos = 0
    for i, s in enumerate(segs):
        if i:
            out.append(html[pos : pos + k])
            pos += k
        S.check(html[pos : pos + len(s)] == s, "the rest of the page does not depend on the text")
        pos += len(s)
    return out


def decoded(S, x):
    """What an HTML parser makes of x, which must contain no markup."""
    out = ""
    i = 0
    while i < len(x):
        c = x[i]
        S.check(S.Not(S.one_of(c, "<>\"'")), "an unescaped character")
        if c == "&":
            if x[i : i + 5] == "&nbsp":
                out = out + " "
                i += 6 if x[i + 5 : i + 6] == ";" else 5
                continue
            j = i + 1
            while j < len(x) and j < i + 6 and x[j] != ";":
                j += 1
            for name, char in ENTITIES.items():
                if x[i + 1 : j] == name and x[j : j + 1] == ";":
                    out = out + char
                    break
            else:
                S.fail("an unescaped ampersand")
                return None
            i = j + 1
        else:
            out = out + c
            i += 1
    return out


def named(name):
    return type(name, (Exception,), {})


def shown(S, html, ref, mark, text):
    for x in regions(S, html, ref, mark):
        S.check(S.eq(decoded(S, x), text), "the text is shown")


def h_text(S):
    """Exception texts."""
    text = S.str("text", 0, S.q(3, 4))
    func = program()
    html = page(func, ValueError(text))
    ref = page(func, ValueError("T0T0"))
    S.check(html.status == 500 and html.header(b"content-type") == [b"text/html; charset=utf-8"], "an HTML page")
    shown(S, html.body.decode(), ref.body.decode(), "T0T0", text)
    S.cover("text")


def h_source(S):
    """Lines of source, the failing one and others around it."""
    at = S.pick("at", 0, 2)
    text = S.str("text", 0, S.q(3, 4), exclude="\n")
    lines = ["a\n", "b\n", "c\n"]
    ref = page(program(lines=lines[:at] + ["T0T0\n"] + lines[at + 1 :]), ValueError("e"))
    html = page(program(lines=lines[:at] + [text + "\n"] + lines[at + 1 :]), ValueError("e"))
    linecache.cache.pop(FILE, None)
    shown(S, html.body.decode(), ref.body.decode(), "T0T0", text)
    S.cover("source%d" % at)


NASTY = ["<script>alert(1)</script>", "<x9>", "q&r9", "\"'><x9>"]


def h_names(S):
    """Names of files, functions and exception classes."""
    name = S.choice("name", NASTY)
    where = S.choice("where", ["file", "function", "class", "cause", "note", "str"])
    make = {
        "file": lambda n: (program(filename="<" + n + ">"), ValueError("e")),
        "function": lambda n: (program(name=n), ValueError("e")),
        "class": lambda n: (program(), named(n)("e")),
        "cause": lambda n: (program(), ValueError("e")),
        "note": lambda n: (program(), ValueError("e")),
        "str": lambda n: (program(), SyntaxError(n, (n, 1, 1, n))),
    }[where]
    func, exc = make(name)
    if where == "cause":
        exc.__cause__ = KeyError(name)
    if where == "note":
        exc.add_note(name)
    html = page(func, exc).body.decode()
    S.check(name not in html, "never in raw form")
    if where in ("file", "function", "class"):
        f, e = make("T0T0")
        ref = page(f, e).body.decode()
        shown(S, html, ref, "T0T0", name)
    S.cover(where)


def media(S, i):
    return S.choice("media%d" % i, [b"text/html", b"text/plain", b"*/*", b"application/json", b"text/html;q=0.9", b"text/htm", b"application/xhtml+xml", b"text/*"])


def plain(S, ch, text):
    S.check(ch.status == 500 and ch.header(b"content-type") == [b"text/plain; charset=utf-8"], "plain text")
    shown_text = ch.body.decode()
    n = len(text)
    S.check(S.Or(*[shown_text[i : i + n] == text for i in range(len(shown_text) - n + 1)]), "the exception text is in the traceback")
    S.check(shown_text[:9] == "Traceback", "a traceback")


def h_accept(S):
    """The choice of the format."""
    items = [media(S, i) for i in range(S.pick("n", 0, 2))]
    accept = S.choice("sep", [b",", b", "]).join(items)
    text = "<x>&"
    ch = page(program(), ValueError(text), accept)
    if any(x.split(b";")[0] == b"text/html" for x in items):
        S.check(ch.status == 500 and ch.header(b"content-type") == [b"text/html; charset=utf-8"], "an HTML page")
        S.check(b"<x>" not in ch.body, "escaped")
        S.cover("html")
    else:
        plain(S, ch, text)
        S.cover("plain")


def h_accept_any(S):
    """Any Accept header that does not mention HTML."""
    n = S.q(9, 12)
    accept = S.bytes("accept", 0, n)
    target = b"text/html"
    S.assume(S.Not(S.Or(*[S.And(*[S.Or(accept[i + j] == c, accept[i + j] == (c - 32 if 97 <= c <= 122 else c)) for j, c in enumerate(target)]) for i in range(len(accept) - 8)])))
    ch = page(program(), ValueError("<x>"), accept)
    plain(S, ch, "<x>")
    S.cover("plain")


def h_plain_text(S):
    """Texts in plain tracebacks are not altered."""
    text = S.str("text", 1, S.q(2, 3), exclude="\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
    plain(S, page(program(), ValueError(text), b"*/*"), text)
    S.cover("plain")


def h_off(S):
    """Without debug the response does not depend on the exception."""
    text = S.str("text", 0, S.q(3, 6), ranges=[(0, 0x10FFFF)])
    exc = S.choice("class", [ValueError, KeyError, named("Secret")])(text)
    accept = S.choice("accept", [b"text/html", b"text/plain", b"*/*"])
    how = S.choice("how", ["middleware", "app", "app-default", "route"])

    async def app(scope, receive, send):
        raise exc

    def endpoint(request):
        raise exc

    if how == "middleware":
        target = ServerErrorMiddleware(app)
    elif how == "app":
        target = Starlette(debug=False, routes=[Route("/", endpoint)])
    elif how == "app-default":
        target = Starlette(routes=[Route("/", endpoint)])
    else:
        target = Starlette(debug=True, routes=[Route("/", endpoint)])
        target.debug = False
    ch = Channel()
    error = None
    try:
        drive(target(http_scope(headers=[(b"accept", accept)]), ch.receive, ch.send))
    except Exception as e:
        error = e
    S.check(error is exc, "re-raised")
    S.check(ch.sent[0]["status"] == 500 and ch.sent[0]["headers"] == [(b"content-length", b"21"), (b"content-type", b"text/plain; charset=utf-8")] and ch.body == b"Internal Server Error" and len(ch.sent) == 2, "a fixed response")
    S.cover(how)


ASSUMPTIONS = [
    "exception texts without lone surrogates in the escaping harnesses (C37 covers them); an Accept header listing text/html with q=0 is not considered",
    "file, function and class names are taken from a list of hostile names (they are concrete in CPython code objects)",
    "inspect runs natively",
]
HARNESSES = [
    dict(name="h_text", covers=["text"], bounds="every exception text of <= 3 (thorough 4) characters"),
    dict(name="h_source", covers=["source0", "source1", "source2"], bounds="every source line of <= 3 (thorough 4) characters as failing line or neighbour"),
    dict(name="h_names", covers=["file", "function", "class", "cause", "note", "str"], bounds="4 hostile names as file, function, class name, in causes, notes and syntax errors"),
    dict(name="h_accept", covers=["html", "plain"], bounds="Accept headers of <= 2 of 8 media ranges, 2 separators"),
    dict(name="h_accept_any", covers=["plain"], bounds="every Accept header of <= 9 (thorough 12) bytes not containing text/html in any case"),
    dict(name="h_plain_text", covers=["plain"], bounds="every exception text of 1-2 (thorough 3) characters without line breaks"),
    dict(name="h_off", covers=["middleware", "app", "app-default", "route"], bounds="every exception text of <= 3 (thorough 6) characters, 3 classes, 3 Accept headers, 4 ways debug is off"),
]
