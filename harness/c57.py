"""C57: comma separated values split into their items."""
from hlib import outcome

from starlette.config import Config
from starlette.datastructures import CommaSeparatedStrings


def stripped(s):
    while len(s) and (s[0] == " " or s[0] == "\t"):
        s = s[1:]
    while len(s) and (s[-1] == " " or s[-1] == "\t"):
        s = s[:-1]
    return s


def reference(text):
    """The items, or None for an unclosed quote. Quotes keep commas together and go away."""
    items, cur, quote, some = [], "", None, False
    for c in text:
        if quote is not None:
            if c == quote:
                quote = None
            else:
                cur = cur + c
        elif c == '"' or c == "'":
            quote = c
            some = True
        elif c == ",":
            if some:
                items.append(cur)
            cur, some = "", False
        else:
            cur = cur + c
            some = True
    if quote is not None:
        return None
    if some:
        items.append(cur)
    return [stripped(x) for x in items]


def same(S, got, want, what):
    S.check(len(got) == len(want), what + ": number of items")
    S.check(S.And(*[S.eq(a, b) for a, b in zip(got, want)]), what + ": items")


def views(S, value, want):
    same(S, list(value), want, "iteration")
    S.check(len(value) == len(want), "length")
    for i in range(len(want)):
        S.check(S.eq(value[i], want[i]) and S.eq(value[i - len(want)], want[i]), "index")
    same(S, value[1:], want[1:], "slice")
    S.check(outcome(lambda: value[len(want)]) == ("exc", "IndexError"), "index past the end")


def h_plain(S):
    """Text without quotes: the pieces between commas, trimmed."""
    text = S.str("text", 0, S.q(5, 7), alphabet=", a#;=\t")
    value = CommaSeparatedStrings(text)
    want = [stripped(p) for p in text.split(",") if len(p) > 0]
    views(S, value, want)
    S.observe("items", list(value))
    S.cover("some" if want else "none")


def h_any(S):
    """Any characters besides quotes, backslashes and line ends."""
    n = S.pick("n", 1, 3)
    items = [S.str("item%d" % i, 1, S.q(2, 3), ranges=[(33, 33), (35, 38), (40, 43), (45, 91), (93, 0x17F)]) for i in range(n)]
    sep = S.choice("sep", [",", ", ", " , "])
    for x in items:
        S.assume(S.And(*[S.And(ord(c) > 0x20, S.Or(ord(c) < 0x7F, ord(c) > 0xA0)) for c in x]))
    text = items[0]
    for x in items[1:]:
        text = text + sep + x
    same(S, list(CommaSeparatedStrings(text)), items, "joined items")
    S.cover("any")


def h_quotes(S):
    """Quotes protect commas; an unclosed one is refused."""
    text = S.str("text", 0, S.q(5, 7), alphabet="a, \"'#")
    want = reference(text)
    kind, got = outcome(lambda: list(CommaSeparatedStrings(text)))
    S.observe("outcome", [kind])
    if want is None:
        S.check(kind == "exc" and got == "ValueError", "an unclosed quote is not refused")
        S.cover("refused")
        return
    S.check(kind == "ok", "refused")
    same(S, got, want, "quoted")
    S.cover("split")


def h_list(S):
    """Items given as a sequence are kept as they are."""
    items = [S.str("item%d" % i, 0, 2, alphabet="a, '") for i in range(S.pick("n", 0, S.q(2, 3)))]
    src = S.choice("type", [list, tuple])(items)
    value = CommaSeparatedStrings(src)
    if isinstance(src, list):
        src.append("later")
    views(S, value, items)
    S.cover("list")


def h_config(S):
    """As a cast: the environment's text, a text default and a list default all become items."""
    how = S.choice("how", ["environ", "text default", "list default"])
    a = S.str("a", 1, 2, alphabet="ab#.")
    b = S.str("b", 1, 2, alphabet="ab#.")
    text = a + "," + b
    if how == "environ":
        got = Config(environ={"K": text})("K", cast=CommaSeparatedStrings, default="x")
    else:
        got = Config(environ={})("K", cast=CommaSeparatedStrings, default=text if how == "text default" else [a, b])
    S.check(isinstance(got, CommaSeparatedStrings), "not cast")
    same(S, list(got), [a, b], how)
    S.check(S.eq(repr(got), "CommaSeparatedStrings([" + repr(a) + ", " + repr(b) + "])"), "representation")
    S.cover(how)


def h_large(S):
    """Many items, and long ones."""
    a = S.str("a", 1, 1, alphabet="a#=")
    items = ["item%d" % i for i in range(300)] + ["x" * 9000, "y"]
    items.insert(S.choice("at", [0, len(items)]), a)
    quote = S.choice("quote", ["", '"', "'"])
    text = S.choice("sep", [",", ", "]).join([quote + x + quote for x in items])
    value = CommaSeparatedStrings(text)
    same(S, list(value), items, "items")
    S.check(len(value) == len(items) and S.eq(value[0], items[0]) and S.eq(value[-1], items[-1]) and S.eq(value[150], items[150]), "length and index")
    same(S, value[100:200], items[100:200], "slice")
    S.cover("large")


ASSUMPTIONS = ["texts hold no backslashes and no line ends (shell escapes are not covered); a piece of blanks only counts as an empty item, as it does today"]
HARNESSES = [
    dict(name="h_plain", covers=["some", "none"], bounds="every text of length <= 5 (thorough 7) over comma, blank, tab, 'a', '#', ';' and '='"),
    dict(name="h_any", covers=["any"], bounds="1..3 items of 1..2 (3) characters up to U+017F, 3 separators"),
    dict(name="h_quotes", covers=["split", "refused"], bounds="every text of length <= 5 (7) over 'a', comma, blank, both quotes and '#'"),
    dict(name="h_list", covers=["list"], bounds="<= 2 (3) items of <= 2 characters"),
    dict(name="h_config", covers=["environ", "text default", "list default"], bounds="two items of 1..2 characters, 3 sources"),
    dict(name="h_large", covers=["large"], bounds="303 items, one of 9000 characters, one of any of 3 characters; quoted or not"),
]
