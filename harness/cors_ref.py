"""Configurations of the CORS middleware and what they allow (the oracle of C28 and C29)."""
from hlib import call, http_scope

ALL_METHODS = ["DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT"]
SAFELISTED = ["Accept", "Accept-Language", "Content-Language", "Content-Type"]


def re_none(S, o):
    return False


def re_alt(S, o):
    """a[bc]+|d.e"""
    first = len(o) >= 2 and S.And(o[0] == "a", *[S.one_of(c, "bc") for c in o[1:]])
    second = len(o) == 3 and S.And(o[0] == "d", o[1] != "\n", o[2] == "e")
    return S.Or(first, second)


def re_sub(S, o):
    r"""https?://([a-z]+\.)?ex"""
    alts = []
    for scheme in ("http://", "https://"):
        rest = o[len(scheme):]
        n = len(rest)
        alts.append(S.And(o[:len(scheme)] == scheme, S.Or(rest == "ex", n > 3 and S.And(rest[n - 3:] == ".ex", *[S.And(ord(c) >= 97, ord(c) <= 122) for c in rest[:n - 3]]))))
    return S.Or(*alts)


REGEXES = [(None, re_none), ("a[bc]+|d.e", re_alt), (r"https?://([a-z]+\.)?ex", re_sub)]
# an asterisk within an origin is an ordinary character
LISTS = [(), ("ab", "http://x"), ["*"], ("q", "*"), ["http://*x", "ab*"]]


def origin(S, name="o"):
    kind = S.choice(name + ".kind", ["free", "list", "url"])
    if kind == "free":
        return S.str(name, 0, S.q(3, 4), ranges=[(0, 255)])
    if kind == "list":
        # a listed origin with text around it or one character replaced
        if S.flag(name + ".around"):
            return S.str(name + ".pre", 0, 1, ranges=[(0, 255)]) + "http://x" + S.str(name + ".post", 0, 1, ranges=[(0, 255)])
        k = S.pick(name + ".at", 0, 7)
        return "http://x"[:k] + S.str(name + ".c", 1, 1, ranges=[(0, 255)]) + "http://x"[k + 1:]
    return S.choice(name + ".scheme", ["http://", "https://", "HTTP://"]) + S.str(name + ".h", 0, S.q(4, 5), ranges=[(0, 255)])


def allowed(S, cfg, o):
    if "*" in cfg["allow_origins"]:
        return True
    return S.Or(cfg["regex"](S, o), *[S.eq(o, x) for x in cfg["allow_origins"]])


def kwargs(cfg):
    return {k: v for k, v in cfg.items() if k != "regex"}


def tokens(values):
    return [t.strip().lower() for v in values for t in v.decode("latin-1").split(",")]


def latin(s):
    return s.encode("latin-1")


def has(S, values, text):
    """Exactly one value, equal to text."""
    return len(values) == 1 and S.eq(values[0], latin(text))
