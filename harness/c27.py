"""C27: static file responses: methods, index pages, custom 404."""
import os

from hlib import call, http_scope
from vfs import Tree

from starlette.applications import Starlette
from starlette.exceptions import HTTPException
from starlette.routing import Mount
from starlette.staticfiles import StaticFiles


def tree(root_index, sub_index, page):
    t = {
        "a": b"file a",
        "d": {"x": b"file x", "e": {}},
        "i": {"index.html": {"y": b"deep"}},  # index.html is a directory
    }
    if root_index:
        t["index.html"] = b"root index"
    if sub_index == "file":
        t["d"]["index.html"] = b"sub index"
    elif sub_index == "link":
        t["d"]["index.html"] = ("link", "../a")
    if page == "file":
        t["404.html"] = b"not found page"
    elif page == "dir":
        t["404.html"] = {}
    return {"st": t}


def lexical(path):
    out = []
    for part in path.split("/"):
        if len(part) == 0 or part == ".":
            continue
        if part == "..":
            if not out:
                return None
            out.pop()
        else:
            out.append(part)
    return out


def find(S, node, comps):
    """Node reached by the components (forks on symbolic ones), or None."""
    for c in comps:
        if not isinstance(node, dict):
            return None
        for name in sorted(node):
            if S.eq(c, name):
                node = node[name]
                break
        else:
            return None
    return node


def expected(S, t, html, path, method):
    """(status, body, redirect)."""
    if method not in ("GET", "HEAD"):
        return 405, None, False
    comps = lexical(path)
    root = t["st"]
    node = None if comps is None else find(S, root, comps)
    if isinstance(node, bytes):
        return 200, node, False
    if html and isinstance(node, dict):
        index = node.get("index.html")
        if isinstance(index, tuple):
            index = root["a"]
        if isinstance(index, bytes):
            if path.endswith("/"):
                return 200, index, False
            return 307, b"", True
    if html and isinstance(root.get("404.html"), bytes):
        return 404, root["404.html"], False
    return 404, None, False


def serve(app, path, method, **kw):
    try:
        ch = call(app, http_scope(path, method=method, **kw))
        return ch.status, ch
    except HTTPException as e:
        return e.status_code, None


def judge(S, t, html, path, method, status, ch, location=None):
    want, body, redirect = expected(S, t, html, path, method)
    S.check(status == want, "status %s instead of %s" % (status, want))
    if redirect:
        loc = ch.header(b"location")
        S.check(len(loc) == 1 and S.eq(loc[0].decode("latin-1"), location), "redirect to the slash-terminated URL")
        S.cover("redirect")
    elif body is not None:
        S.check(ch is not None, "no response")
        S.check(ch.body == (b"" if method == "HEAD" else body), "body")
        S.check(ch.header(b"content-length") == [str(len(body)).encode()], "content-length")
        if want == 404:
            S.cover("404 page")
        elif body in (b"root index", b"sub index"):
            S.cover("index")
        else:
            S.cover("file")
    else:
        S.cover(str(want))


def h_paths(S):
    """Every short path and tree layout."""
    html = S.flag("html")
    t = tree(S.flag("root index"), S.choice("sub index", ["none", "file", "link"]), S.choice("page", ["none", "file", "dir"]))
    method = S.choice("method", ["GET", "HEAD"])
    path = "/" + S.str("path", 0, S.q(3, 4), alphabet="/.adexi")
    with Tree(S, t) as fs:
        app = StaticFiles(directory=os.path.join(fs.root, "st"), html=html)
        status, ch = serve(app, path, method, headers=[(b"host", b"h")])
    judge(S, t, html, path, method, status, ch, "http://h" + path + "/")


def h_methods(S):
    """Every method."""
    html = S.flag("html")
    t = tree(True, "file", S.choice("page", ["none", "file"]))
    method = S.choice("known", ["", "GE", "HEA", "POS", "OPTION", "get"]) + S.str("method", 0, S.q(3, 4), ranges=[("A", "Z"), ("a", "h")])
    path = S.choice("path", ["/a", "/d/", "/d", "/nope", "/"])
    with Tree(S, t) as fs:
        app = StaticFiles(directory=os.path.join(fs.root, "st"), html=html)
        status, ch = serve(app, path, method, headers=[(b"host", b"h")])
    m = "GET" if method == "GET" else "HEAD" if method == "HEAD" else "other"
    judge(S, t, html, path, m, status, ch, "http://h" + path + "/")


def h_mounted(S):
    """In an application under a mount, with a query string and a root path; exceptions become responses."""
    html = S.flag("html")
    t = tree(S.flag("root index"), S.choice("sub index", ["none", "file"]), S.choice("page", ["none", "file"]))
    method = S.choice("method", ["GET", "POST"])
    path = "/" + S.choice("first", ["", "d", "d/", "a", "d/e"]) + S.str("path", 0, S.q(2, 3), alphabet="/dxz")
    root = S.choice("root", ["", "/r"])
    with Tree(S, t) as fs:
        app = Starlette(routes=[Mount("/m", StaticFiles(directory=os.path.join(fs.root, "st"), html=html))])
        ch = call(app, http_scope(root + "/m" + path, method=method, root_path=root, query=b"q=1", headers=[(b"host", b"h")]))
    want, body, redirect = expected(S, t, html, path, method)
    judge(S, t, html, path, method, ch.status, ch, "http://h" + root + "/m" + path + "/?q=1")


def h_conditional(S):
    """Range and validators never change the status of the 404 page."""
    t = tree(True, "file", "file")
    headers = [(b"host", b"h")]
    rng = S.choice("range", [None, b"bytes=0-1", b"bytes=0-0,3-4", b"bytes=x", b"bytes=99-"])
    if rng:
        headers.append((b"range", rng))
    none_match = S.flag("none match")
    with Tree(S, t) as fs:
        app = StaticFiles(directory=os.path.join(fs.root, "st"), html=True)
        page = call(app, http_scope("/404.html"))
        if none_match:
            headers.append((b"if-none-match", page.header(b"etag")[0]))
        status, ch = serve(app, "/missing", S.choice("method", ["GET", "HEAD"]), headers=headers)
    S.check(status == 404, "status of the 404 page")
    S.cover("404 page")
    S.check(ch.header(b"content-length") == [b"14"] and ch.header(b"content-range") == [], "headers of the 404 page")


def h_config(S):
    """A missing directory is refused: at construction when checked, else at the first request."""
    check = S.flag("check")
    kind = S.choice("kind", ["missing", "file", "ok"])
    with Tree(S, tree(False, "none", "none")) as fs:
        d = os.path.join(fs.root, {"missing": "no", "file": "st/a", "ok": "st"}[kind])
        try:
            app = StaticFiles(directory=d, check_dir=check)
            built = True
        except RuntimeError:
            built = False
        S.check(built == (not check or kind == "ok"), "construction")
        if built:
            try:
                status, ch = serve(app, "/a", "GET")
                S.check(kind == "ok" and status == 200, "served without a directory")
                S.cover("served")
            except RuntimeError:
                S.check(kind != "ok", "a directory was refused")
                S.cover("refused late")
        else:
            S.cover("refused early")


ASSUMPTIONS = ["the file system as in C25", "the redirect location is checked for paths without characters that need escaping"]
HARNESSES = [
    dict(name="h_paths", covers=["redirect", "404 page", "index", "file", "404"], bounds="every path of length <= 4 (thorough 5) over '/.adexi' x 2 x 2 x 3 x 3 layouts (html, root index, sub index, 404 page) x GET and HEAD"),
    dict(name="h_methods", covers=["405", "file", "index"], bounds="every method of <= 3 (4) letters, alone or after 5 beginnings x 5 paths"),
    dict(name="h_mounted", covers=["redirect", "404 page", "index", "file", "404", "405"], bounds="5 beginnings and every path tail of length <= 2 (3), under a mount, 2 root paths, with a query"),
    dict(name="h_conditional", covers=["404 page"], bounds="5 Range headers x If-None-Match with the page's tag x GET and HEAD"),
    dict(name="h_config", covers=["served", "refused late", "refused early"], bounds="3 kinds of directory x checked or not"),
]
