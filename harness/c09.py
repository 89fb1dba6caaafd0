"""C09: multi-value dictionaries keep first-come order and last-value lookup."""
from starlette.datastructures import FormData, ImmutableMultiDict, MultiDict, QueryParams


def pairs_eq(S, got, want):
    return S.And(len(got) == len(want), *[S.And(S.eq(a[0], b[0]), S.eq(a[1], b[1])) for a, b in zip(got, want)])


def keys_of(ref):
    out = []
    for k, v in ref:
        if not any(k == x for x in out):
            out.append(k)
    return out


def vals(ref, k):
    return [v for a, v in ref if a == k]


def verify(S, d, ref, probe, what):
    S.check(pairs_eq(S, d.multi_items(), ref), what + ": multi_items")
    ks = keys_of(ref)
    S.check(len(d) == len(ks), what + ": len")
    got = list(d.keys())
    S.check(S.And(len(got) == len(ks), *[S.Or(*[S.eq(a, b) for b in got]) for a in ks]), what + ": keys")
    S.check(len(list(d)) == len(ks), what + ": iteration")
    items = list(d.items())
    S.check(len(items) == len(ks), what + ": items")
    for k, v in items:
        vs = vals(ref, k)
        S.check(len(vs) > 0 and S.eq(v, vs[-1]), what + ": items hold the last value")
    S.check(len(list(d.values())) == len(ks), what + ": values")
    vs = vals(ref, probe)
    S.check(S.eq(d.getlist(probe), vs), what + ": getlist")
    S.check((probe in d) == (len(vs) > 0), what + ": membership")
    S.check(S.eq(d.get(probe, "-"), vs[-1] if vs else "-"), what + ": get")
    try:
        x = d[probe]
        S.check(len(vs) > 0 and S.eq(x, vs[-1]), what + ": index is the last value")
    except KeyError:
        S.check(len(vs) == 0, what + ": KeyError for a present key")


def initial(S, n, tag=""):
    return [(S.str("k%s%d" % (tag, i), 1, 1, alphabet="ab"), "v%s%d" % (tag, i)) for i in range(n)]


OPS = ["set", "del", "append", "setlist", "setlist0", "pop", "popdefault", "poplist", "popitem", "setdefault", "update", "updatemulti", "updatekw", "clear"]


def without(ref, k):
    return [(a, v) for a, v in ref if a != k]


def step(S, d, ref, i):
    op = S.choice("op%d" % i, OPS)
    S.cover(op)
    k = None
    if op not in ("popitem", "clear", "updatekw"):
        k = S.str("key%d" % i, 1, 1, alphabet="abc")
    v = "n%d" % i
    has = k is not None and len(vals(ref, k)) > 0
    if op == "set":
        d[k] = v
        return without(ref, k) + [(k, v)]
    if op == "del":
        try:
            del d[k]
            S.check(has, "deleting an absent key did not raise")
        except KeyError:
            S.check(not has, "deleting a present key raised")
        return without(ref, k)
    if op == "append":
        d.append(k, v)
        return ref + [(k, v)]
    if op == "setlist":
        d.setlist(k, [v, "m%d" % i])
        return without(ref, k) + [(k, v), (k, "m%d" % i)]
    if op == "setlist0":
        d.setlist(k, [])
        return without(ref, k)
    if op == "pop":
        got = d.pop(k)
        S.check(S.eq(got, vals(ref, k)[-1]) if has else got is None, "pop result")
        return without(ref, k)
    if op == "popdefault":
        got = d.pop(k, "dflt")
        S.check(S.eq(got, vals(ref, k)[-1] if has else "dflt"), "pop result")
        return without(ref, k)
    if op == "poplist":
        got = d.poplist(k)
        S.check(S.eq(got, vals(ref, k)), "poplist result")
        return without(ref, k)
    if op == "popitem":
        try:
            got = d.popitem()
        except KeyError:
            S.check(len(ref) == 0, "popitem raised on a non-empty dictionary")
            return ref
        vs = vals(ref, got[0])
        S.check(len(vs) > 0 and S.eq(got[1], vs[-1]), "popitem result")
        return without(ref, got[0])
    if op == "setdefault":
        got = d.setdefault(k, v)
        S.check(S.eq(got, vals(ref, k)[-1] if has else v), "setdefault result")
        return ref if has else ref + [(k, v)]
    if op == "update":
        d.update([(k, v), (k, "m%d" % i)])
        return without(ref, k) + [(k, v), (k, "m%d" % i)]
    if op == "updatemulti":
        d.update(MultiDict([(k, v), ("a", "w"), (k, "x")]))
        new = [(k, v), ("a", "w"), (k, "x")]
        return without(without(ref, k), "a") + new
    if op == "updatekw":
        d.update({"b": v}, c="z")
        return without(without(ref, "b"), "c") + [("b", v), ("c", "z")]
    d.clear()
    return []


def h_ops(S):
    """Operation sequences on MultiDict against a list of pairs."""
    n = S.pick("n", 0, S.q(2, 3))
    ref = initial(S, n)
    d = MultiDict(list(ref))
    for i in range(S.q(2, 3)):
        ref = step(S, d, ref, i)
    verify(S, d, ref, S.str("probe", 1, 1, alphabet="abc"), "after the operations")
    S.observe("items", d.multi_items())


def h_construct(S):
    """Every construction keeps the order; sources are not aliased."""
    n = S.pick("n", 0, 3)
    ref = initial(S, n)
    how = S.choice("how", ["list", "multi", "derived", "imm", "form", "kw", "query"])
    src = list(ref)
    if how == "list":
        d = ImmutableMultiDict(src)
        src.append(("z", "z"))
    elif how == "multi":
        m = MultiDict(src)
        d = MultiDict(m)
        if S.flag("append"):
            m.append("b", "later")
        m["a"] = "later"
    elif how == "derived":
        d = MultiDict(src)
        m = MultiDict(d)
        m.append("b", "later")
        m["a"] = "later"
    elif how == "imm":
        d = MultiDict(ImmutableMultiDict(src))
    elif how == "form":
        d = FormData(src)
    elif how == "kw":
        d = MultiDict(src, b="kw", q="kw2")
        ref = ref + [("b", "kw"), ("q", "kw2")]
    else:
        d = QueryParams(src)
    # what was handed out belongs to the caller
    d.multi_items().append(("z", "z"))
    d.getlist("a").append("z")
    verify(S, d, ref, S.str("probe", 1, 1, alphabet="abq"), how)
    S.cover(how)


def h_equal(S):
    """Equality of multi-dictionaries as multisets of pairs."""
    a = [(S.str("ak%d" % i, 1, 1, alphabet="ab"), S.str("av%d" % i, 1, 1, alphabet="01")) for i in range(S.pick("na", 0, S.q(2, 3)))]
    b = [(S.str("bk%d" % i, 1, 1, alphabet="ab"), S.str("bv%d" % i, 1, 1, alphabet="01")) for i in range(S.pick("nb", 0, 2))]
    cls = S.choice("cls", [MultiDict, ImmutableMultiDict, QueryParams])
    got = cls(a) == cls(b)
    left = list(b)
    want = len(a) == len(b)
    for x in a:
        hit = None
        for j, y in enumerate(left):
            if x[0] == y[0] and x[1] == y[1]:
                hit = j
                break
        if hit is None:
            want = False
        else:
            left.pop(hit)
    S.check(got == want, "equality is not multiset equality")
    S.check((cls(a) == dict(a)) is False, "equal to a plain dict")
    S.cover("equal" if got else "unequal")


def h_values(S):
    """Falsy and equal values are not confused with absence."""
    v = S.choice("v", [None, 0, "", False, []])
    d = MultiDict([("a", v), ("b", 1), ("a", v)])
    k = S.str("key", 1, 1, alphabet="abc")
    S.check(d.setdefault(k, 7) == (v if k == "a" else 1 if k == "b" else 7), "setdefault with a falsy value")
    S.check(d.getlist("a") == [v, v], "values")
    S.check(d.poplist("a") == [v, v] and "a" not in d, "poplist")
    S.cover("falsy")


ASSUMPTIONS = ["keys and values are text (equality sorts pairs, so they must be orderable)"]
HARNESSES = [
    dict(name="h_ops", covers=OPS, bounds="<= 2 (thorough 3) initial pairs over 2 keys x every sequence of 2 (3) of 14 operations with keys over 'abc'"),
    dict(name="h_construct", covers=["list", "multi", "derived", "imm", "form", "kw", "query"], bounds="<= 3 initial pairs, 7 constructions"),
    dict(name="h_equal", covers=["equal", "unequal"], bounds="<= 2 (3) and <= 2 pairs over 2 keys and 2 values, 3 classes"),
    dict(name="h_values", covers=["falsy"], bounds="5 falsy values x 3 keys"),
]
