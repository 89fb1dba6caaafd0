"""C11: editing a URL changes only the named component."""
from urllib.parse import unquote

from starlette.datastructures import URL

NAME = "u0.-_%@"  # user names
WORD = "a:@b%;!="  # passwords
PATH = "/p:@%;a[]&="
TEXT = "q=&%+/?:@"


def compose(c):
    """The text of the URL with these components."""
    net = c["hostname"]
    if c["port"] is not None:
        net = net + ":" + str(c["port"])
    if c["username"] is not None:
        info = c["username"]
        if c["password"] is not None:
            info = info + ":" + c["password"]
        net = info + "@" + net
    out = c["scheme"] + "://" + net + c["path"]
    if len(c["query"]):
        out = out + "?" + c["query"]
    if len(c["fragment"]):
        out = out + "#" + c["fragment"]
    return out


HOSTS = ["h", "[fe80::1:2]", "[::1]", "10.0.0.1"]
PORTS = [None, 80, 8443]


def verify(S, url, c, what):
    """url has exactly these components."""
    S.check(S.eq(str(url), compose(c)), what + ": text")
    S.check(S.eq(url.scheme, c["scheme"]), what + ": scheme")
    S.check(S.eq(url.path, c["path"]), what + ": path")
    S.check(S.eq(url.query, c["query"]), what + ": query")
    S.check(S.eq(url.fragment, c["fragment"]), what + ": fragment")
    S.check(S.eq(url.hostname, c["hostname"].strip("[]")), what + ": hostname")
    S.check(S.eq(url.port, c["port"]), what + ": port")
    for k, got in (("username", url.username), ("password", url.password)):
        if c[k] is None:
            S.check(got is None, what + ": " + k)
        else:
            S.check(got is not None and S.eq(got, c[k]), what + ": " + k)
    net = compose(dict(c, path="", query="", fragment=""))[len(c["scheme"]) + 3:]
    S.check(S.eq(url.netloc, net), what + ": netloc")


def components(S, n):
    cred = S.choice("cred", ["none", "user", "userpass"])
    c = dict(scheme=S.choice("scheme", ["http", "wss"]), hostname=S.choice("host", HOSTS), port=S.choice("port", PORTS),
             username=None, password=None, path="", query="", fragment="")
    if cred != "none":
        c["username"] = S.str("user", 0, n, alphabet=NAME)
    if cred == "userpass":
        c["password"] = S.str("pass", 0, n, alphabet=WORD)
    return c


def h_authority(S):
    """Host, port and credentials; the rest of the URL is carried along."""
    c = components(S, S.q(1, 2))
    c["path"], c["query"], c["fragment"] = S.choice("tail", [("", "", ""), ("/p@x:1", "q=@:", "f@"), ("/", "", "f")])
    url = URL(compose(c))
    verify(S, url, c, "parsed")
    what = S.choice("edit", ["scheme", "hostname", "port", "username", "password", "login", "hostport"])
    new = dict(c)
    if what == "scheme":
        new["scheme"] = S.choice("new", ["https", "ftp"])
        got = url.replace(scheme=new["scheme"])
    elif what == "hostname":
        new["hostname"] = S.choice("new", ["z", "[fe80::2]", "n.io"])
        got = url.replace(hostname=new["hostname"])
    elif what == "port":
        new["port"] = S.choice("new", [None, 1, 65535])
        got = url.replace(port=new["port"])
    elif what == "username":
        new["username"] = S.str("new", 0, 1, alphabet=NAME) if S.flag("set") else None
        if new["username"] is None:
            new["password"] = None
        got = url.replace(username=new["username"])
    elif what == "password":
        S.assume(c["username"] is not None)
        new["password"] = S.str("new", 0, 1, alphabet=WORD) if S.flag("set") else None
        got = url.replace(password=new["password"])
    elif what == "login":
        new["username"] = S.str("new", 0, 1, alphabet=NAME)
        new["password"] = S.str("newp", 1, 1, alphabet=WORD)
        got = url.replace(username=new["username"], password=new["password"])
    else:
        new["hostname"], new["port"] = "y", S.choice("new", [None, 7])
        got = url.replace(hostname="y", port=new["port"])
    verify(S, got, new, what)
    verify(S, url, c, "original")
    S.cover(what)


def h_port(S):
    """Any port number survives and is set."""
    p = S.int("p", 0, 65535)
    q = S.int("q", 0, 65535)
    host = S.choice("host", HOSTS)
    c = dict(scheme="http", hostname=host, port=p, username=None, password=None, path="/", query="", fragment="")
    url = URL("http://" + host + ":" + str(p) + "/")
    S.check(S.eq(url.port, p), "port parsed")
    verify(S, url.replace(port=q), dict(c, port=q), "port")
    verify(S, url.replace(username="u"), dict(c, username="u"), "username")
    verify(S, url.replace(port=None), dict(c, port=None), "no port")
    S.cover("port")


def h_tail(S):
    """Path, query and fragment."""
    n = S.q(2, 3)
    c = dict(scheme="http", hostname="h", port=S.choice("port", [None, 81]), username=None, password=None)
    c["path"] = S.choice("slash", ["", "/"])
    if len(c["path"]):
        c["path"] = c["path"] + S.str("path", 0, n, alphabet=PATH)
    c["query"] = S.str("query", 0, n, alphabet=TEXT)
    c["fragment"] = S.str("fragment", 0, S.q(1, 2), alphabet=TEXT + "#")
    url = URL(compose(c))
    verify(S, url, c, "parsed")
    what = S.choice("edit", ["path", "query", "fragment", "all", "port"])
    new = dict(c)
    if what in ("path", "all"):
        new["path"] = "/" + S.str("npath", 0, S.q(1, 2), alphabet=PATH)
    if what in ("query", "all"):
        new["query"] = S.str("nquery", 0, S.q(1, 2), alphabet=TEXT)
    if what in ("fragment", "all"):
        new["fragment"] = S.str("nfragment", 0, 1, alphabet=TEXT + "#")
    if what == "port":
        new["port"] = 5
    got = url.replace(**{k: new[k] for k in ("path", "query", "fragment", "port") if what == "all" and k != "port" or what == k})
    verify(S, got, new, what)
    S.cover(what)


def h_made(S):
    """A URL made from components has those components."""
    c = dict(scheme="ftp", hostname=S.choice("host", HOSTS), port=None, username=None, password=None,
             path="/" + S.str("path", 0, 2, alphabet=PATH), query=S.str("query", 0, 1, alphabet=TEXT), fragment="")
    kw = dict(scheme="ftp", hostname=c["hostname"], path=c["path"], query=c["query"])
    if S.flag("has_port"):
        c["port"] = kw["port"] = 99
    if S.flag("has_user"):
        c["username"] = kw["username"] = S.str("user", 0, 1, alphabet=NAME)
        c["password"] = kw["password"] = S.str("pass", 1, 1, alphabet=WORD)
    verify(S, URL(**kw), c, "made")
    S.cover("made")


def decoded(text):
    return unquote(text.replace("+", " "))


def pairs_of(query):
    out = []
    for piece in query.split("&"):
        if piece:
            k, _, v = piece.partition("=")
            out.append((decoded(k), decoded(v)))
    return out


def same(S, got, want):
    return S.And(len(got) == len(want), *[S.And(S.eq(a[0], b[0]), S.eq(a[1], b[1])) for a, b in zip(got, want)])


def others(S, url, base):
    """Everything but the query is as in base."""
    S.check(S.eq(url.scheme, base.scheme) and S.eq(url.netloc, base.netloc) and S.eq(url.path, base.path) and S.eq(url.fragment, base.fragment), "a query edit changed another component")
    S.check(S.eq(url.replace(query=""), base.replace(query="")), "a query edit changed the rest of the URL")


def h_query(S):
    """Queries of pairs: include, replace, remove by key."""
    n = S.pick("n", 0, S.q(2, 3))
    keys = [S.choice("k%d" % i, ["a", "b", "", "a+"][: S.q(3, 4)]) for i in range(n)]
    vals = [S.str("v%d" % i, 0, 1, alphabet=S.q("1=", "1=+;")) for i in range(n)]
    query = "&".join([k + "=" + v for k, v in zip(keys, vals)])
    tail = S.choice("tail", ["", "#f"])
    base = URL("http://u:p@h:1/p" + ("?" + query if n else "") + tail)
    had = [(k.replace("+", " "), v.replace("+", " ")) for k, v in zip(keys, vals)]
    edit = S.choice("edit", ["include", "replace", "remove"])
    if edit == "include":
        new = S.choice("new", [["a"], ["b", "a"], ["z"], []])
        kw = {k: S.str("n" + k, 0, 1, alphabet=S.q("1& é", "1&=+ %é")) for k in new}
        got = base.include_query_params(**kw)
        res = pairs_of(got.query)
        S.check(same(S, [p for p in res if p[0] not in new], [p for p in had if p[0] not in new]), "other parameters changed")
        for k in new:
            S.check(S.eq([p[1] for p in res if p[0] == k], [kw[k]]), "an included parameter is not set to exactly its value")
    elif edit == "replace":
        new = S.choice("new", [["a"], ["b", "a"], []])
        kw = {k: S.str("n" + k, 0, 1, alphabet=S.q("1& é", "1&=+ %é")) for k in new}
        got = base.replace_query_params(**kw)
        S.check(same(S, pairs_of(got.query), [(k, kw[k]) for k in new]), "the query is not exactly the given parameters")
    else:
        gone = S.choice("gone", ["a", ["a"], ["b", "a"], ["z"], ["", "z"], []])
        got = base.remove_query_params(gone)
        gone = [gone] if isinstance(gone, str) else gone
        S.check(same(S, pairs_of(got.query), [p for p in had if p[0] not in gone]), "remove affects other parameters, or leaves some")
    others(S, got, base)
    S.cover(edit)


def h_rawquery(S):
    """Queries of any shape: editing one key leaves the decoded others."""
    q = S.str("q", 0, S.q(4, 5), alphabet="a=&%1")
    base = URL("http://h/?" + q) if len(q) else URL("http://h/")
    had = pairs_of(q)
    got = base.include_query_params(z="1")
    S.check(same(S, pairs_of(got.query), had + [("z", "1")]), "include changed other parameters")
    S.check(same(S, pairs_of(got.remove_query_params("z").query), had), "include then remove")
    got = base.include_query_params(a=7)
    S.check(same(S, pairs_of(got.query), [p for p in had if p[0] != "a"] + [("a", "7")]), "include over an existing key")
    got = base.remove_query_params("a")
    S.check(same(S, pairs_of(got.query), [p for p in had if p[0] != "a"]), "remove")
    S.cover("raw")


ASSUMPTIONS = [
    "absolute URLs scheme://[user[:password]@]host[:port][/path][?query][#fragment] of ASCII text without control characters or spaces; a new host name is a registered name, an IPv4 address or a bracketed IPv6 address; ports are canonical decimal numbers",
    "a password is set only where there is a user name; included parameters replace the earlier ones of that name and stand last",
]
HARNESSES = [
    dict(name="h_authority", covers=["scheme", "hostname", "port", "username", "password", "login", "hostport"], bounds="2 schemes x 4 hosts x 3 ports x users and passwords of length <= 1 (thorough 2) incl. '@' ':' '%' x 3 tails x 7 edits with symbolic new values"),
    dict(name="h_port", covers=["port"], bounds="every pair of ports 0..65535 x 4 hosts"),
    dict(name="h_tail", covers=["path", "query", "fragment", "all", "port"], bounds="path, query <= 2 (3) characters and fragment <= 1 (2) over URL punctuation, with symbolic new values"),
    dict(name="h_made", covers=["made"], bounds="URLs made of components with symbolic path, query, user, password"),
    dict(name="h_query", covers=["include", "replace", "remove"], bounds="queries of <= 2 (3) pairs over 3 (4) keys with symbolic values; edits of 0..2 keys with symbolic values incl. & = + % and non-ASCII"),
    dict(name="h_rawquery", covers=["raw"], bounds="every query of length <= 4 (5) over 'a=&%1'"),
]
