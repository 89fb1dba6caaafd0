"""C13: secrets never show in representations."""
from starlette.config import Config
from starlette.datastructures import URL, Secret

PW = [(0x21, 0x22), (0x24, 0x2E), (0x30, 0x3E), (0x40, 0x5A), (0x5C, 0x5C), (0x5E, 0x7E)]  # visible ASCII but / ? # [ ]


def h_url(S):
    """The representation of a URL is the same for any two passwords."""
    scheme = S.choice("scheme", ["http", "postgresql"])
    user = S.str("user", 0, S.q(1, 2), alphabet="u.@%")
    host = S.choice("host", ["h", "H.org", "[::1]", "127.0.0.1"])
    port = S.choice("port", ["", ":80", ":5432"])
    tail = S.choice("tail", ["", "/p@th:x", "/d?q=a@b:c", "?q#f@g", "/p;x#fr"])
    p1 = S.str("p1", 1, S.q(2, 4), ranges=PW)
    p2 = S.str("p2", 1, S.q(1, 2), ranges=PW)
    a = URL(scheme + "://" + user + ":" + p1 + "@" + host + port + tail)
    b = URL(scheme + "://" + user + ":" + p2 + "@" + host + port + tail)
    ra, rb = repr(a), repr(b)
    S.check(S.eq(ra, rb), "the representation depends on the password")
    S.check(S.eq(ra, "URL('" + scheme + "://" + user + ":********@" + host + port + tail + "')"), "other components changed in the representation")
    S.check(S.eq(str(a), scheme + "://" + user + ":" + p1 + "@" + host + port + tail), "str() is not the real URL")
    S.check(S.eq("%r %s" % (a, "x"), ra + " x") , "formatting by %r")
    S.check(S.eq(f"{a!r}", ra), "formatting by !r")
    S.check(S.eq(repr([a]), "[" + ra + "]"), "representation inside a list")
    S.cover("url")


def h_split(S):
    """Userinfo with several ':' and '@': everything after the first ':' is the password."""
    user = S.str("user", 0, 2, alphabet="a.")
    p1 = S.str("p1", 1, S.q(4, 6), alphabet="a:@b%.")
    p2 = S.str("p2", 1, S.q(3, 5), alphabet="a:@b%.")
    a = URL("http://" + user + ":" + p1 + "@h/")
    b = URL("http://" + user + ":" + p2 + "@h/")
    S.check(S.eq(repr(a), repr(b)), "the representation depends on the password")
    S.cover("split")


def h_replaced(S):
    """A password set by replace() is hidden as well."""
    p = S.str("p", 1, S.q(3, 5), ranges=PW)
    u = URL("http://u@h:81/x?y=1").replace(password=p)
    S.check(S.eq(str(u), "http://u:" + p + "@h:81/x?y=1"), "str() is not the real URL")
    S.check(repr(u) == "URL('http://u:********@h:81/x?y=1')", "the password shows")
    v = URL(scheme="ftp", username="u", password=p, hostname="h", path="/z")
    S.check(repr(v) == "URL('ftp://u:********@h/z')", "the password shows")
    S.check(S.eq(v.password, p), "password component")
    S.cover("replaced")


def h_secret(S):
    """The representation of a Secret is the same for any value."""
    a = S.str("a", 0, S.q(4, 6))
    b = S.str("b", 0, 2)
    S.check(repr(Secret(a)) == repr(Secret(b)), "the representation depends on the secret")
    S.check(S.eq(str(Secret(a)), a), "str() is not the real value")
    S.check(bool(Secret(a)) == (len(a) > 0), "truth")
    S.check(f"{Secret(a)!r}" == repr(Secret("x")) and "%r" % (Secret(a),) == repr(Secret("x")), "formatted representation")
    cfg = Config(environ={"K": a})
    got = cfg("K", cast=Secret)
    S.check(isinstance(got, Secret) and S.eq(str(got), a), "cast")
    S.check(repr(got) == repr(Secret("x")) and repr({"k": got}) == "{'k': " + repr(Secret("x")) + "}", "configured secret")
    S.cover("secret")


ASSUMPTIONS = ["passwords of visible ASCII without / ? # [ ] (those must be percent-encoded in a URL); non-empty; valid ports"]
HARNESSES = [
    dict(name="h_url", covers=["url"], bounds="pairs of passwords of length <= 2 (thorough 4) and 1 (2) over 88 characters x 2 schemes x users of length <= 1 (2) x 4 hosts x 3 ports x 5 tails"),
    dict(name="h_split", covers=["split"], bounds="passwords of length <= 4 (6) and <= 3 (5) over 'a:@b%.'"),
    dict(name="h_replaced", covers=["replaced"], bounds="passwords of length <= 3 (5) over 88 characters"),
    dict(name="h_secret", covers=["secret"], bounds="secrets of length <= 4 (6), any Unicode"),
]
