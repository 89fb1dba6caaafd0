"""C08: headers obey case-insensitive ordered multimap laws."""
from starlette.datastructures import Headers, MutableHeaders

NAMES = b"ab"


def initial(S, n):
    """An ordered raw header list: names over two letters, any latin-1 value byte."""
    out = []
    for i in range(n):
        k = S.bytes("k%d" % i, 1, 1, alphabet=NAMES)
        out.append((k, b"v%d" % i))
    return out


def fold(S, key):
    """key as a raw lower-case name."""
    out = b""
    for c in key:
        o = ord(c)
        o = S.If(S.And(o >= 65, o <= 90), o + 32, o)
        out = out + bytes([o])
    return out


def same_list(S, got, want):
    return S.And(len(got) == len(want), *[S.And(S.eq(a[0], b[0]), S.eq(a[1], b[1])) for a, b in zip(got, want)])


def ref_set(ref, k, v):
    out = []
    done = False
    for a, b in ref:
        if a == k:
            if not done:
                out.append((k, v))
                done = True
        else:
            out.append((a, b))
    if not done:
        out.append((k, v))
    return out


def ref_get(ref, k):
    for a, b in ref:
        if a == k:
            return b
    return None


def verify(S, h, ref, key, what):
    """Every observation of h agrees with the reference list."""
    S.check(same_list(S, h.raw, ref), what + ": raw list")
    S.check(len(h) == len(ref), what + ": len")
    S.check(S.eq(h.keys(), [a.decode("latin-1") for a, b in ref]), what + ": keys")
    S.check(S.eq(list(h), [a.decode("latin-1") for a, b in ref]), what + ": iteration")
    S.check(S.eq(h.values(), [b.decode("latin-1") for a, b in ref]), what + ": values")
    S.check(S.eq(h.items(), [(a.decode("latin-1"), b.decode("latin-1")) for a, b in ref]), what + ": items")
    low = fold(S, key)
    want = [b.decode("latin-1") for a, b in ref if a == low]
    S.check(S.eq(h.getlist(key), want), what + ": getlist")
    S.check((key in h) == (len(want) > 0), what + ": membership")
    S.check(S.eq(h.get(key, "-"), want[0] if want else "-"), what + ": get")
    try:
        got = h[key]
        S.check(len(want) > 0 and S.eq(got, want[0]), what + ": index")
    except KeyError:
        S.check(len(want) == 0, what + ": KeyError for a present header")


OPS = ["set", "del", "append", "setdefault", "update", "vary", "ior", "or"]


def step(S, h, ref, i):
    """One operation on h and on the reference; returns both."""
    op = S.choice("op%d" % i, OPS)
    S.cover(op)
    key = S.str("key%d" % i, 1, 1, alphabet="aAbBc")
    low = fold(S, key)
    val = "n%d" % i
    raw = val.encode("latin-1")
    if op == "set":
        h[key] = val
        ref = ref_set(ref, low, raw)
    elif op == "del":
        del h[key]
        ref = [(a, b) for a, b in ref if a != low]
    elif op == "append":
        h.append(key, val)
        ref = ref + [(low, raw)]
    elif op == "setdefault":
        got = h.setdefault(key, val)
        old = ref_get(ref, low)
        S.check(S.eq(got, val if old is None else old.decode("latin-1")), "setdefault result")
        if old is None:
            ref = ref + [(low, raw)]
    elif op in ("update", "ior", "or"):
        last = S.choice("last%d" % i, ["w", ""]) if op == "update" else "w"
        other = {key: val, "A": last}
        if op == "update":
            h.update(other)
        elif op == "ior":
            h |= other
        else:
            before = list(h.raw)
            new = h | other
            S.check(same_list(S, h.raw, before), "| changed its operand")
            h = new
        if bool(S.eq(key, "A")):
            ref = ref_set(ref, b"a", last.encode())
        else:
            ref = ref_set(ref_set(ref, low, raw), b"a", last.encode())
    else:
        h.add_vary_header(val)
        old = [b for a, b in ref if a == b"vary"]
        ref = ref_set(ref, b"vary", b", ".join(old + [raw]))
    return h, ref


def h_ops(S):
    """Operation sequences on MutableHeaders against a list of pairs."""
    n = S.pick("n", 0, S.q(2, 3))
    ref = initial(S, n)
    h = MutableHeaders(raw=list(ref))
    for i in range(S.q(2, 3)):
        h, ref = step(S, h, ref, i)
    verify(S, h, ref, S.str("probe", 1, 1, alphabet="aBcV"), "after the operations")
    S.observe("raw", h.raw)


def h_many(S):
    """One operation on a longer list, with any number of duplicates anywhere."""
    ref = initial(S, S.pick("n", 3, S.q(6, 8)))
    h = MutableHeaders(raw=list(ref))
    op = S.choice("op", ["set", "del", "setdefault", "update"])
    if op == "set":
        h["A"] = "n"
        ref = ref_set(ref, b"a", b"n")
    elif op == "del":
        del h["A"]
        ref = [(a, b) for a, b in ref if a != b"a"]
    elif op == "update":
        h.update({"A": "n", "b": "m"})
        ref = ref_set(ref_set(ref, b"a", b"n"), b"b", b"m")
    else:
        h.setdefault("A", "n")
        if ref_get(ref, b"a") is None:
            ref = ref + [(b"a", b"n")]
    S.check(same_list(S, h.raw, ref), op + " on a longer list")
    S.check(S.eq(h.getlist("a"), [b.decode("latin-1") for a, b in ref if a == b"a"]), "getlist on a longer list")
    S.cover(op)


def h_views(S):
    """Immutable headers, every way of making them, and independence of copies."""
    n = S.pick("n", 0, 3)
    ref = initial(S, n)
    how = S.choice("how", ["raw", "scope", "tuple", "copy"])
    if how == "raw":
        h = Headers(raw=list(ref))
    elif how == "scope":
        h = Headers(scope={"headers": list(ref)})
    elif how == "tuple":
        h = Headers(scope={"headers": tuple(ref)})
    else:
        src = Headers(raw=list(ref))
        h = src.mutablecopy()
        h["b"] = "changed"
        h.append("c", "more")
        verify(S, src, ref, "b", "original after its copy changed")
        ref = ref_set(ref, b"b", b"changed") + [(b"c", b"more")]
    verify(S, h, ref, S.str("probe", 1, 1, alphabet="aAbBc"), how)
    S.cover(how)


def h_mapping(S):
    """Headers from a mapping: names lowered, bytes kept."""
    key = S.str("key", 1, S.q(3, 4), ranges=[(0x21, 0x7E)])
    val = S.str("val", 0, S.q(3, 4), ranges=[(0, 0xFF)])
    h = Headers({key: val}) if S.flag("immutable") else MutableHeaders({key: val})
    verify(S, h, [(fold(S, key), val.encode("latin-1"))], key, "from a mapping")
    S.check(S.eq(h.get(key.upper()), val), "upper-case lookup")
    S.cover("mapping")


def h_long(S):
    """Multi-character names that are prefixes of each other, arbitrary value bytes."""
    ref = [
        (S.bytes("k0", 0, 3, alphabet=b"ab-"), S.bytes("v0", 0, 2)),
        (S.bytes("k1", 1, 2, alphabet=b"ab-"), S.bytes("v1", 0, 1)),
    ]
    h = MutableHeaders(raw=list(ref))
    key = S.str("key", 1, 3, alphabet="aAB-")
    val = S.str("val", 0, 2, ranges=[(0, 255)])
    if S.flag("delete"):
        del h[key]
        ref = [(a, b) for a, b in ref if a != fold(S, key)]
    else:
        h[key] = val
        ref = ref_set(ref, fold(S, key), val.encode("latin-1"))
    verify(S, h, ref, key, "long names")
    S.cover("long")


def h_vary(S):
    """Adding to Vary keeps every token already there, in order."""
    n = S.pick("n", 0, 3)
    names = [S.choice("k%d" % i, [b"vary", b"x"]) for i in range(n)]
    ref = [(k, S.bytes("v%d" % i, 0, 2, ranges=[(32, 126)])) for i, k in enumerate(names)]
    h = MutableHeaders(raw=list(ref))
    tok = S.str("tok", 1, 3, ranges=[(33, 126)])
    h.add_vary_header(tok)
    old = [v for k, v in ref if k == b"vary"]
    S.check(S.eq(h.getlist("vary"), [b", ".join(old + [tok.encode("latin-1")]).decode("latin-1")]), "Vary tokens")
    S.check(same_list(S, [p for p in h.raw if p[0] == b"x"], [p for p in ref if p[0] == b"x"]), "other entries")
    S.cover("vary")


def h_equal(S):
    """Equality compares the multisets of entries."""
    a, b = [], []
    na, nb = S.pick("na", 0, 2), S.pick("nb", 0, 2)
    for i in range(na):
        a.append((S.bytes("ak%d" % i, 1, 1, alphabet=b"ab"), S.bytes("av%d" % i, 1, 1, alphabet=b"01")))
    for i in range(nb):
        b.append((S.bytes("bk%d" % i, 1, 1, alphabet=b"ab"), S.bytes("bv%d" % i, 1, 1, alphabet=b"01")))
    got = Headers(raw=a) == MutableHeaders(raw=b)
    pair = lambda x, y: S.And(S.eq(x[0], y[0]), S.eq(x[1], y[1]))
    if na != nb:
        want = False
    elif na == 0:
        want = True
    elif na == 1:
        want = pair(a[0], b[0])
    else:
        want = S.Or(S.And(pair(a[0], b[0]), pair(a[1], b[1])), S.And(pair(a[0], b[1]), pair(a[1], b[0])))
    S.check(S.eq(got, want), "equality")
    S.cover("equal" if got else "unequal")


ASSUMPTIONS = ["raw header lists carry lower-case names, as ASGI requires"]
HARNESSES = [
    dict(name="h_ops", covers=OPS, bounds="raw lists of <= 2 (thorough 3) entries over 2 names x every sequence of 2 (3) of 8 operations with keys over aAbBc"),
    dict(name="h_many", covers=["set", "del", "setdefault", "update"], bounds="raw lists of 3..6 (8) entries over 2 names x 4 operations"),
    dict(name="h_views", covers=["raw", "scope", "tuple", "copy"], bounds="raw lists of <= 3 entries, 4 constructions, 5 probe keys"),
    dict(name="h_mapping", covers=["mapping"], bounds="one visible-ASCII name of length <= 3 (4), any latin-1 value of length <= 3 (4)"),
    dict(name="h_long", covers=["long"], bounds="names of length <= 3 over 'ab-', any value bytes of length <= 2"),
    dict(name="h_vary", covers=["vary"], bounds="<= 3 entries, values of length <= 2, token of length <= 3, printable ASCII"),
    dict(name="h_equal", covers=["equal", "unequal"], bounds="two lists of <= 2 entries over 2 names and 2 values"),
]
