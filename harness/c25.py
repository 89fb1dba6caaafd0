"""C25: static files never escape their directories."""
import os
from pathlib import Path

from hlib import drive, http_scope, call
from vfs import ROOT, Tree

from starlette.exceptions import HTTPException
from starlette.routing import Mount, Router
from starlette.staticfiles import StaticFiles

TREE = {
    "st": {
        "a": b"st/a",
        "d": {"b": b"st/d/b", "w": ("link", "../../s")},
        "u": ("link", "../s"),  # a file outside
        "i": ("link", "d/b"),  # a file inside
        "l": ("link", "../o"),  # a directory outside
        "k": ("link", "d"),  # a directory inside
        "z": ("link", "@/o/a"),  # absolute, outside
        "n": ("link", "nowhere"),
    },
    "stx": {"a": b"stx/a", "d": {"b": b"stx/d/b"}},
    "o": {"a": b"o/a", "b": b"o/b", "w": b"o/w"},
    "p": ("link", "st"),
    "s": b"s",
}


def real(names, depth=0):
    """Real location of a lexically normal list of names below the tree, or None."""
    cur, node = [], TREE
    for i, name in enumerate(names):
        if not isinstance(node, dict) or name not in node:
            return None
        child = node[name]
        if isinstance(child, tuple):
            t = child[1]
            todo = (t[2:] if t.startswith("@/") else "/".join(cur + [t])).split("/")
            flat = []
            for x in todo:
                if x == "..":
                    flat.pop()
                else:
                    flat.append(x)
            return real(flat + list(names[i + 1 :]))
        cur, node = cur + [name], child
    return cur


def node_at(names):
    n = TREE
    for x in names:
        n = n[x]
    return n


def every_file():
    """(lexical path from the root of the tree, real path) of every way to reach a file, without dots."""
    out = []

    def visit(names, depth):
        r = real(names)
        if r is None:
            return
        n = node_at(r)
        if isinstance(n, bytes):
            out.append((names, r))
        elif depth < 5:
            for x in sorted(n):
                visit(names + [x], depth + 1)

    visit([], 0)
    return out


FILES = every_file()


def components(S, path):
    """The path's components after lexical normalisation (symbolic pieces), with leading '..'s counted."""
    ups, out = 0, []
    for part in path.split("/"):
        if len(part) == 0 or part == ".":
            continue
        if part == "..":
            if out:
                out.pop()
            else:
                ups += 1
        else:
            out.append(part)
    return ups, out


def expected(S, dirs, follow, path):
    """The content to be served for a request path, or None."""
    ups, comps = components(S, path)
    for d in dirs:
        base = [x for x in d.strip("/").split("/") if x]
        rbase = real(base)
        if not follow:
            base = rbase if ups else base
        k = len(base) - ups
        if k < 0:
            if k < -1 or not comps or not S.eq(comps[0], ROOT[1:]):
                # above the root of the tree: nothing there is served
                continue
            names, rest = [], comps[1:]
        else:
            names, rest = base[:k], comps
        for lex, loc in FILES:
            if len(lex) != len(names) + len(rest) or lex[: len(names)] != names:
                continue
            inside = lex[: len(base)] == base if follow else loc[: len(rbase)] == rbase
            if not inside:
                continue
            if S.And(*[S.eq(a, b) for a, b in zip(rest, lex[len(names) :])]):
                return node_at(loc)
    return None


def serve(app, path, **kw):
    """(status, body)."""
    try:
        ch = call(app, http_scope(path, **kw))
        return ch.status, ch.body
    except HTTPException as e:
        return e.status_code, None


def judge(S, dirs, follow, path, status, body):
    want = expected(S, dirs, follow, path)
    if want is None:
        S.check(status == 404, "%s for a path that names no file inside the directories" % status)
        S.cover("404")
    else:
        S.check(status == 200, "%s for a file inside the directories" % status)
        S.check(body == want, "another file was served")
        S.cover("200")


def h_path(S):
    """Every short request path."""
    follow = S.flag("follow")
    with Tree(S, TREE) as t:
        app = StaticFiles(directory=os.path.join(t.root, "st"), follow_symlink=follow)
        path = "/" + S.str("path", 0, S.q(4, 6), alphabet="/.abdilukzn")
        status, body = serve(app, path)
    judge(S, ["st"], follow, path, status, body)


def h_any(S):
    """Any characters, also NUL."""
    with Tree(S, TREE) as t:
        app = StaticFiles(directory=os.path.join(t.root, "st"), follow_symlink=S.flag("follow"))
        path = S.choice("lead", ["/", "", "/d/"]) + S.str("path", 0, S.q(2, 3))
        status, body = serve(app, path)
    judge(S, ["st"], app.follow_symlink, path, status, body)


def h_climb(S):
    """Paths that climb out and maybe back in, siblings with a common prefix, symbolic links."""
    follow = S.flag("follow")
    form = S.choice("dir", ["st", "p", "./st", "st/", "st/d", "path"])
    with Tree(S, TREE) as t:
        d = Path(t.root, "st") if form == "path" else form if form == "./st" else os.path.join(t.root, form)
        app = StaticFiles(directory=d, follow_symlink=follow)
        lead = S.choice("lead", ["/../", "/..//", "/d/../../", "/../st/", "/../st/../", "/../stx/", "/../o/", "/../p/", "/../../r/", "/l/", "/k/", "/k/../", "/../../st/", "/.../", "/%2e%2e/"])
        path = lead + S.str("tail", 0, S.q(3, 4), alphabet="/.abdstx")
        status, body = serve(app, path)
    judge(S, ["p" if form == "p" else "st/d" if form == "st/d" else "st"], follow, path, status, body)
    S.cover(form)


def h_several(S):
    """Several directories (one of a package), mounted."""
    follow = S.flag("follow")
    with Tree(S, TREE) as t:
        app = StaticFiles(directory=os.path.join(t.root, "st", "d"), follow_symlink=follow)
        app.all_directories.append(os.path.join(t.root, "o"))
        path = "/" + S.str("path", 0, S.q(4, 5), alphabet="/.abow")
        router = Router([Mount("/m", app)])
        status, body = serve(router, "/m" + path)
    judge(S, ["st/d", "o"], follow, path, status, body)


def h_long(S):
    """Names longer than the file system allows."""
    n = S.choice("n", [255, 256, 300])
    with Tree(S, TREE) as t:
        app = StaticFiles(directory=os.path.join(t.root, "st"), follow_symlink=S.flag("follow"))
        status, body = serve(app, "/" + S.choice("lead", ["", "d/", "a/"]) + "x" * n)
    S.check(status == 404, "status for a long name")
    S.cover("long")


ASSUMPTIONS = [
    "the file system is a model of a tree with files, directories and symbolic links (os.stat, os.lstat, os.readlink, os.getcwd, anyio.open_file), replayed on a real tree; it does not change during a request",
    "'normalised' is lexical: name/.. is removed before symbolic links are resolved",
    "no unreadable files and no cycles of links",
]
HARNESSES = [
    dict(name="h_path", covers=["200", "404"], bounds="every path of length <= 5 (thorough 7) over '/.abdilukzn' in a tree with files, directories and links in and out, both symlink modes"),
    dict(name="h_any", covers=["200", "404"], bounds="every path of <= 2 (3) characters of all Unicode, incl. NUL, behind 3 prefixes"),
    dict(name="h_climb", covers=["200", "404", "st", "p", "./st", "st/", "st/d", "path"], bounds="6 spellings of the directory x 15 climbing prefixes x every tail of length <= 3 (4) over '/.abdstx'"),
    dict(name="h_several", covers=["200", "404"], bounds="two directories under a mount, every path of length <= 5 (6) over '/.abow'"),
    dict(name="h_long", covers=["long"], bounds="names of 255, 256 and 300 characters at 3 places"),
]
