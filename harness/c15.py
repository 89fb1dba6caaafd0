"""C15: cookies set by a response are read back by a request."""
import datetime
import time

from hlib import call, http_scope, outcome

from starlette.requests import Request, cookie_parser
from starlette.responses import Response

NAME = "aZ9!#$%&'*+-.^_`|~"
NOW = 1700000000.0


class Clock:
    """time.time() fixed."""

    def __enter__(self):
        self.real = time.time
        time.time = lambda: NOW

    def __exit__(self, *exc):
        time.time = self.real


def set_cookies(resp):
    ch = call(resp, http_scope())
    return [v.decode("latin-1") for v in ch.header(b"set-cookie")]


def pair_of(header):
    return header.split(";")[0]


def read(cookie):
    return Request(http_scope(headers=[(b"cookie", cookie.encode("latin-1"))])).cookies


def h_value(S):
    """Any value of latin-1 characters."""
    value = S.str("value", 0, S.q(3, 4), ranges=[(32, 126), (128, 255)])
    resp = Response(b"")
    resp.set_cookie("k", value)
    got = set_cookies(resp)
    S.check(len(got) == 1, "not exactly one Set-Cookie header")
    S.observe("header", got[0])
    pair = pair_of(got[0])
    S.check(pair.startswith("k="), "cookie pair")
    S.check(S.And(*[S.And(ord(c) > 31, ord(c) < 127) for c in got[0]]), "a control or non-ASCII character in the header")
    S.check(S.eq(got[0][len(pair):], "; Path=/; SameSite=lax"), "attributes")
    around = S.choice("around", ["", "a=1; ", '; z="q"'])
    cookie = pair + around if around.startswith(";") else around + pair
    back = read(cookie)
    S.check("k" in back and S.eq(back["k"], value), "the cookie read back has another value")
    S.check(len(back) == (1 if around == "" else 2), "other cookies appear")
    S.cover("value")


def h_long(S):
    """Longer values over the characters that matter to quoting."""
    value = S.str("value", 3, S.q(4, 5), alphabet='a;"\\0 ')
    resp = Response(b"")
    resp.set_cookie("k", value)
    got = set_cookies(resp)
    back = read(pair_of(got[0]))
    S.check(len(back) == 1 and S.eq(back.get("k"), value), "the cookie read back has another value")
    S.cover("long")


def h_name(S):
    """Cookies of any name come back."""
    name = S.str("name", 1, S.q(2, 3), alphabet=NAME)
    value = S.str("value", 0, 1, alphabet="v=;")
    resp = Response(b"")
    resp.set_cookie(name, value, path=None, samesite=None)
    got = set_cookies(resp)
    S.check(len(got) == 1, "not exactly one Set-Cookie header")
    S.check(len(got[0].split(";")) == 1, "attributes nobody asked for")
    back = read("x=1; " + got[0] + "; y=2")
    S.check(len(back) == 3 and name in back and S.eq(back[name], value), "the cookie read back differs")
    S.cover("name")


WHEN = datetime.datetime(2024, 2, 29, 23, 59, 58, tzinfo=datetime.timezone.utc)


def h_attributes(S):
    """Exactly the requested attributes."""
    kw, want = {}, []
    exp = S.choice("expires", ["none", "int", "str", "datetime"])
    if exp == "int":
        kw["expires"] = 100
        want.append("expires=Tue, 14 Nov 2023 22:15:00 GMT")
    elif exp == "str":
        kw["expires"] = "Thu, 01 Jan 1970 00:00:00 GMT"
        want.append("expires=" + kw["expires"])
    elif exp == "datetime":
        kw["expires"] = WHEN
        want.append("expires=Thu, 29 Feb 2024 23:59:58 GMT")
    if S.flag("has_age"):
        kw["max_age"] = S.int("age", 0, S.q(99, 10**6))
        want.append("Max-Age=" + str(kw["max_age"]))
    path = S.choice("path", ["default", "none", "given"])
    if path == "default":
        want.append("Path=/")
    elif path == "none":
        kw["path"] = None
    else:
        kw["path"] = "/a/B"
        want.append("Path=" + kw["path"])
    if S.flag("has_domain"):
        kw["domain"] = "x.org"
        want.append("Domain=" + kw["domain"])
    if S.flag("secure"):
        kw["secure"] = True
        want.append("Secure")
    if S.flag("httponly"):
        kw["httponly"] = True
        want.append("HttpOnly")
    same = S.choice("samesite", ["default", "none", "strict", "None", "Lax"])
    if same == "default":
        want.append("SameSite=lax")
    elif same == "none":
        kw["samesite"] = None
    else:
        kw["samesite"] = same
        want.append("SameSite=" + same)
    resp = Response(b"")
    with Clock():
        resp.set_cookie("k", "v", **kw)
    got = set_cookies(resp)
    S.check(len(got) == 1, "not exactly one Set-Cookie header")
    pieces = got[0].split("; ")
    S.check(pieces[0] == "k=v", "cookie pair")
    S.check(len(pieces) == 1 + len(want), "number of attributes")
    for w in want:
        S.check(S.Or(*[S.eq(p.lower(), w.lower()) for p in pieces[1:]]), "a requested attribute is missing")
    S.cover(exp)


def h_dates(S):
    """Dates without a zone or of another zone are refused or become the HTTP date of that instant."""
    zone = S.choice("zone", [None, 0, 1, -8])
    tz = None if zone is None else datetime.timezone(datetime.timedelta(hours=zone))
    resp = Response(b"")
    when = datetime.datetime(2024, 2, 29, 12, 59, 58, tzinfo=tz)
    kind, what = outcome(lambda: resp.set_cookie("k", "v", expires=when))
    if kind != "ok":
        S.cover("refused")
        S.check(zone != 0, "a date in UTC was refused")
        S.check(resp.headers.getlist("set-cookie") == [], "a header in spite of the refusal")
        return
    S.cover("set")
    want = "expires=Thu, 29 Feb 2024 %02d:59:58 GMT" % (12 - (zone or 0))
    pieces = [p.lower() for p in set_cookies(resp)[0].split("; ")]
    S.check(zone is None or want.lower() in pieces, "another instant")
    S.check(any(p.startswith("expires=") and p.endswith(" gmt") for p in pieces), "not an HTTP date")


def h_delete(S):
    """Deleting expires the cookie of the same name, path and domain."""
    name = S.str("name", 1, 2, alphabet=NAME)
    kw = {}
    path = "/"
    if S.flag("has_path"):
        path = kw["path"] = "/" + S.str("p", 0, 2, alphabet="ab/")
    if S.flag("has_domain"):
        kw["domain"] = "x.org"
    if S.flag("flags"):
        kw.update(secure=True, httponly=True, samesite="none")
    resp = Response(b"")
    with Clock():
        resp.delete_cookie(name, **kw)
    got = set_cookies(resp)
    S.check(len(got) == 1, "not exactly one Set-Cookie header")
    pieces = got[0].split("; ")
    S.check(S.eq(pieces[0], name + '=""'), "cookie pair")
    low = [p.lower() for p in pieces[1:]]
    S.check("max-age=0" in low, "not expired")
    S.check("expires=tue, 14 nov 2023 22:13:20 gmt" in low, "expiry date")
    S.check(S.Or(*[S.eq(p, "path=" + path.lower()) for p in low]), "path")
    S.check(("domain=x.org" in low) == ("domain" in kw), "domain")
    S.check(("secure" in low) == ("secure" in kw) and ("httponly" in low) == ("httponly" in kw), "flags")
    S.check(("samesite=none" if "samesite" in kw else "samesite=lax") in low, "samesite")
    S.cover("delete")


def h_several(S):
    """Several cookies, each in its own header; the last of a name wins when read."""
    n1, n2 = S.choice("names", [("a", "b"), ("a", "a"), ("A", "a")])
    v1 = S.str("v1", 0, 1, alphabet="x;")
    v2 = S.str("v2", 0, 1, alphabet="y,")
    resp = Response(b"", headers={"x": "1"})
    resp.set_cookie(n1, v1)
    resp.set_cookie(n2, v2)
    got = set_cookies(resp)
    S.check(len(got) == 2, "not one header per cookie")
    back = read(pair_of(got[0]) + "; " + pair_of(got[1]))
    S.check(S.eq(back[n2], v2), "second cookie")
    if n1 != n2:
        S.check(len(back) == 2 and S.eq(back[n1], v1), "first cookie")
    S.cover("several")


def h_illegal(S):
    """Names that cannot be cookie names are refused, not mangled into the header."""
    name = S.str("name", 1, 2, alphabet="a=; ,\n\"(")
    resp = Response(b"")
    kind, what = outcome(lambda: resp.set_cookie(name, "v"))
    legal = S.And(*[c == "a" for c in name])
    if kind == "ok":
        S.check(legal, "an illegal name was accepted")
        S.cover("legal")
    else:
        S.check(S.Not(legal), "a legal name was refused")
        S.check(resp.headers.getlist("set-cookie") == [], "a header in spite of the refusal")
        S.cover("refused")


# --- parsing
def unquoted(v):
    """RFC 2109 quoted strings as Python writes them."""
    if len(v) < 2 or v[0] != '"' or v[-1] != '"':
        return v
    v = v[1:-1]
    out = ""
    i = 0
    while i < len(v):
        if v[i] == "\\" and i + 1 < len(v):
            ds = v[i + 1:i + 4]
            if len(ds) == 3 and ds[0] in "0123" and ds[1] in "01234567" and ds[2] in "01234567":
                out = out + chr(int(ds, 8))
                i += 4
                continue
            if v[i + 1] != "\n":
                out = out + v[i + 1]
                i += 2
                continue
        out = out + v[i]
        i += 1
    return out


def stripped(s):
    while len(s) and s[0] == " ":
        s = s[1:]
    while len(s) and s[-1] == " ":
        s = s[:-1]
    return s


def reference(text):
    out = []
    for piece in text.split(";"):
        k, sep, v = piece.partition("=")
        if not sep:
            k, v = "", piece
        k, v = stripped(k), stripped(v)
        if len(k) or len(v):
            out = [(a, b) for a, b in out if a != k] + [(k, unquoted(v))]
    return out


def h_parse(S):
    """Parsing any Cookie header against a reference parser."""
    text = S.str("text", 0, S.q(5, 6), alphabet='a=; "')
    got = read(text)
    want = reference(text)
    S.observe("cookies", sorted([list(x) for x in got.items()], key=repr) if False else len(got))
    S.check(len(got) == len(want), "number of cookies")
    for k, v in want:
        S.check(k in got and S.eq(got[k], v), "cookie value")
    S.cover("some" if want else "none")


def h_quoted(S):
    """Quoted values are unquoted as the reference does."""
    text = 'k="' + S.str("text", 0, S.q(5, 6), alphabet='\\"01a9') + S.choice("end", ['"', ""]) + "; z=1"
    got = read(text)
    want = reference(text)
    S.check(len(got) == len(want), "number of cookies")
    for k, v in want:
        S.check(k in got and S.eq(got[k], v), "cookie value")
    S.cover("quoted")


def h_any(S):
    """Any header text: no exception, and pieces do not influence each other."""
    a = S.str("a", 0, S.q(2, 3), ranges=[(0, 255)])
    b = S.str("b", 0, S.q(2, 2), ranges=[(0, 255)])
    S.assume(S.And(*[c != ";" for c in a + b]))
    one, two, both = cookie_parser(a), cookie_parser(b), cookie_parser(a + ";" + b)
    for k in one:
        if not (k in two):
            S.check(k in both and S.eq(both[k], one[k]), "a piece is changed by the next")
    for k in two:
        S.check(k in both and S.eq(both[k], two[k]), "a piece is changed by the one before")
    S.check(len(both) <= len(one) + len(two), "cookies out of nowhere")
    S.cover("any")


def h_large(S):
    """Many cookies, long names and long values around any short one."""
    v = S.str("v", 0, 1, ranges=[(32, 126), (128, 255)])
    jar = {"n%d" % i: "w%d" % i for i in range(130)}
    jar["long"] = "x" * 9000 + v + "y" * 9000
    jar["l" * 3000] = "z"
    resp = Response(b"")
    for name in jar:
        resp.set_cookie(name, jar[name])
    got = set_cookies(resp)
    S.check(len(got) == len(jar), "one header per cookie")
    back = read("; ".join(pair_of(c) for c in got))
    S.check(list(back) == list(jar), "names")
    S.check(S.And(*[S.eq(back[name], jar[name]) for name in jar]), "values")
    resp.delete_cookie("n7")
    S.check(len(set_cookies(resp)) == len(jar) + 1, "one more header for a deletion")
    S.cover("large")


ASSUMPTIONS = ["legal names are HTTP tokens other than the reserved attribute names; path, domain and samesite values contain no ';'", "the clock is fixed"]
HARNESSES = [
    dict(name="h_value", covers=["value"], bounds="every value of length <= 3 (thorough 4) of printable ASCII and U+0080..U+00FF characters, alone or among other cookies"),
    dict(name="h_long", covers=["long"], bounds="values of length 3..4 (5) over 'a ; \" \\ 0 space'"),
    dict(name="h_name", covers=["name"], bounds="names of length <= 2 (3) over token characters"),
    dict(name="h_attributes", covers=["none", "int", "str", "datetime"], bounds="every combination of attributes, max-age 0..99 (10^6)"),
    dict(name="h_dates", covers=["refused", "set"], bounds="dates without a zone and in 3 zones"),
    dict(name="h_delete", covers=["delete"], bounds="names of length <= 2, paths of length <= 3, with and without domain and flags"),
    dict(name="h_several", covers=["several"], bounds="two cookies with equal or different names"),
    dict(name="h_illegal", covers=["legal", "refused"], bounds="names of length <= 2 over 8 characters"),
    dict(name="h_parse", covers=["some", "none"], bounds="every Cookie header of length <= 5 (6) over 'a = ; space \"'"),
    dict(name="h_quoted", covers=["quoted"], bounds="quoted values of length <= 5 (6) over '\\ \" 0 1 a 9'"),
    dict(name="h_any", covers=["any"], bounds="two pieces of <= 2 (3) and <= 2 arbitrary latin-1 characters"),
    dict(name="h_large", covers=["large"], bounds="132 cookies, one of 18000 characters around any one, one name of 3000"),
]
