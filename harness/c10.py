"""C10: query strings round-trip."""
from urllib.parse import quote_plus, unquote

from hlib import http_scope

from starlette.datastructures import ImmutableMultiDict, QueryParams
from starlette.requests import Request

TEXT = "a=&+%;# ?/" + "é中\U0001F600\n" + '"'


def same(S, got, want):
    return S.And(len(got) == len(want), *[S.And(S.eq(a[0], b[0]), S.eq(a[1], b[1])) for a, b in zip(got, want)])


def h_roundtrip(S):
    """Pairs encoded as a query string are read back."""
    n = S.pick("n", 0, 2)
    if n < 2:
        pairs = [(S.str("k%d" % i, 0, S.q(1, 2), alphabet=TEXT), S.str("v%d" % i, 0, 2, alphabet=TEXT)) for i in range(n)]
    else:
        few = S.q("a=&+é", "a=&+%; é")
        pairs = [(S.str("k%d" % i, 0, 1, alphabet=few), S.str("v%d" % i, 0, 1, alphabet=few)) for i in range(n)]
    q = QueryParams(pairs)
    S.check(same(S, q.multi_items(), pairs), "pairs kept")
    text = str(q)
    S.observe("text", text)
    S.check(S.And(*[S.And(ord(c) > 32, ord(c) < 127) for c in text]), "encoded text is not plain ASCII")
    back = QueryParams(text)
    S.check(same(S, back.multi_items(), pairs), "parsing the encoded pairs gives other pairs")
    back = QueryParams(text.encode("ascii"))
    S.check(same(S, back.multi_items(), pairs), "parsing the encoded bytes gives other pairs")
    req = Request(http_scope(query=text.encode("ascii")))
    S.check(same(S, req.query_params.multi_items(), pairs), "request.query_params")
    S.cover("pairs%d" % n)


def h_anychar(S):
    """Any Unicode character survives, in a key and in a value."""
    c = S.str("c", 1, S.q(1, 2))
    pairs = [("k" + c, "v"), ("x", c)]
    back = QueryParams(str(QueryParams(pairs)))
    S.check(same(S, back.multi_items(), pairs), "character lost in the round trip")
    S.cover("any")


def reference(raw):
    """Split at '&', then at the first '=', then decode once."""
    out = []
    for piece in raw.split("&"):
        if not piece:
            continue
        k, sep, v = piece.partition("=")
        out.append((unquote(k.replace("+", " ")), unquote(v.replace("+", " "))))
    return out


def h_parse(S):
    """Parsing any raw query string against a reference decoder."""
    lead = S.choice("lead", [b"", b"?", b"#", b" ", b";", b"/"])
    raw = lead + S.bytes("raw", 0, S.q(6, 7) - len(lead), alphabet=b"a=&+%41")
    want = reference(raw.decode("latin-1"))
    S.check(same(S, QueryParams(raw).multi_items(), want), "parsing bytes")
    q = Request(http_scope(query=raw)).query_params
    S.check(same(S, q.multi_items(), want), "request.query_params")
    S.observe("items", q.multi_items())
    S.cover("blank" if any(len(v) == 0 for k, v in want) else "plain")


def h_escape(S):
    """Escapes are decoded exactly once, as UTF-8 with replacement."""
    a = S.str("a", 3, S.q(4, 6), alphabet="%2C3aF5")
    want = [("k", unquote(a)), ("", unquote(a))]
    got = QueryParams("k=" + a + "&=" + a).multi_items()
    S.check(same(S, got, want), "escape decoding")
    S.cover("esc")


def h_multi(S):
    """Lookups follow the pairs; strings are made of other values."""
    pairs = [(S.str("k%d" % i, 0, 1, alphabet="ab&"), S.str("v%d" % i, 0, 1, alphabet="x=")) for i in range(S.q(2, 3))]
    how = S.choice("how", ["list", "multi"])
    q = QueryParams(pairs if how == "list" else ImmutableMultiDict(pairs))
    probe = S.str("probe", 1, 1, alphabet="ab&")
    vs = [v for k, v in pairs if k == probe]
    S.check(S.eq(q.getlist(probe), vs), "getlist")
    S.check(S.eq(q.get(probe, "-"), vs[-1] if vs else "-"), "get")
    n = S.int("n", -9, 10**6)
    S.check(S.eq(QueryParams({"n": n}).get("n"), str(n)), "numbers become text")
    S.check(S.eq(str(QueryParams(n=n)), "n=" + str(n)), "numbers are encoded as text")
    S.cover(how)


def h_large(S):
    """One pair with any character anywhere among many plain ones."""
    n = S.choice("n", S.q([130], [130, 1030]))
    at = S.choice("at", [0, n - 1])
    pairs = [("k%d" % i, "v%d" % (i % 7)) for i in range(n)]
    pairs[at] = ("x", S.str("v", 0, 1, alphabet=S.q("a&+%é", TEXT)))
    q = QueryParams("&".join("%s=%s" % (quote_plus(k), quote_plus(v)) for k, v in pairs))
    S.check(same(S, q.multi_items(), pairs), "pairs")
    S.check(S.eq(q["x"], pairs[at][1]) and q["k%d" % (n // 2)] == pairs[n // 2][1], "lookup")
    S.check(same(S, QueryParams(str(q)).multi_items(), pairs), "round trip")
    S.cover("large")


ASSUMPTIONS = ["text without lone surrogates (they have no UTF-8 encoding)"]
HARNESSES = [
    dict(name="h_roundtrip", covers=["pairs0", "pairs1", "pairs2"], bounds="lists of <= 2 pairs, key of length <= 1 (thorough 2) and value of length <= 2 over 15 characters for one pair, texts of length <= 1 over 5 (8) characters for two"),
    dict(name="h_anychar", covers=["any"], bounds="every Unicode character (thorough: two)"),
    dict(name="h_parse", covers=["blank", "plain"], bounds="raw query strings of length <= 6 (7) over 'a=&+%41', the first character also of '? # ; / space'"),
    dict(name="h_escape", covers=["esc"], bounds="texts of length 3..4 (6) over '%2C3aF5'"),
    dict(name="h_multi", covers=["list", "multi"], bounds="2 (3) pairs of length <= 1, integers -9..10^6"),
    dict(name="h_large", covers=["large"], bounds="130 (thorough also 1030) pairs, the first or last with any value of length <= 1"),
]
