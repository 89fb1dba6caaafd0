"""C45: configuration resolves by precedence and casts strictly."""
import functools
import json
import warnings

from starlette.config import Config, Environ, EnvironError

warnings.simplefilter("ignore")


class Special:
    """A cast that accepts some values."""

    def __init__(self, value):
        if value == "bad":
            raise ValueError
        if value == "type":
            raise TypeError
        self.value = value


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


PLAIN = [("!", "!"), ("#", "&"), ("(", "~")]  # printable, without space and quotes


def expected(S, value, cast):
    """('ok', value) or ('bad',) of a cast, and whether it may be checked."""
    if cast is None or value is None:
        return "ok", value
    if cast is bool:
        if isinstance(value, str):
            low = value.lower()
            yes = S.Or(low == "true", low == "1")
            no = S.Or(low == "false", low == "0")
            if yes:
                return "ok", True
            if no:
                return "ok", False
            return "bad", None
        return "ok", bool(value)
    v, e = attempt(lambda: cast(value))
    return ("bad", None) if e is not None else ("ok", v)


def outcome(S, f, want, cast):
    got, error = attempt(f)
    if want[0] == "bad":
        S.check(isinstance(error, ValueError), "an invalid value raises ValueError")
        S.cover("invalid")
        return
    S.check(error is None, "a valid value is accepted")
    if cast is Special and want[1] is not None:
        S.check(isinstance(got, Special) and S.eq(got.value, want[1].value), "the cast value")
    else:
        S.check((got is want[1]) if want[1] is None or isinstance(want[1], bool) else S.And(type(got) is type(want[1]) or not isinstance(got, bool), S.eq(got, want[1])), "the value")


CASTS = [None, str, int, bool, Special]


def h_precedence(S):
    """Environment, then file, then default, for every combination and value."""
    cast = S.choice("cast", CASTS)
    prefix = S.choice("prefix", ["", "P_"])
    env, text = {}, "# K=comment\nOTHER = other\n"
    if prefix:
        env["K"] = "decoy"
        text += "K=decoy\n"
    else:
        env["P_K"] = "decoy"
        text += "P_K=decoy\n"
    in_env = S.flag("in env")
    in_file = S.choice("file", ["none", "other", "set"])
    default = S.choice("default", ["none", "null", "text", "number", "flag"])
    env_value = S.str("env", 0, 2, alphabet="01 -_tTa") if in_env else None
    file_value = S.str("file value", 0, 1, alphabet="01-_tTa=#") if in_file == "set" else None
    if in_env:
        env[prefix + "K"] = env_value
    if in_file == "set":
        text = text + prefix + "K = " + file_value + "\nLAST=x"
    kw = {}
    if default != "none":
        kw["default"] = {"null": None, "text": "7", "number": 7, "flag": True}[default]
    path = None if in_file == "none" else S.file("env", text)
    config = Config(path, environ=Environ(env) if S.flag("environ") else env, env_prefix=prefix)
    call = (lambda: config.get("K", cast, **kw)) if S.flag("get") else (lambda: config("K", cast=cast, **kw))
    for i in range(2):
        if in_env:
            outcome(S, call, expected(S, env_value, cast), cast)
            S.cover("environment")
        elif in_file == "set":
            outcome(S, call, expected(S, file_value, cast), cast)
            S.cover("file")
        elif default != "none":
            outcome(S, call, expected(S, kw["default"], cast), cast)
            S.cover("default")
        else:
            got, error = attempt(call)
            S.check(isinstance(error, KeyError), "missing")
            S.cover("missing")


def h_bool(S):
    """Booleans: exactly four words in any case."""
    value = S.str("value", 0, S.q(5, 6), ranges=[(0, 0x17F)])
    n = len(value)
    where = S.choice("where", ["env", "default"])

    def is_word(word):
        return len(word) == n and S.And(*[S.Or(c == w, c == w.upper()) for c, w in zip(value, word)])

    true = S.Or(is_word("true"), is_word("1"))
    false = S.Or(is_word("false"), is_word("0"))
    config = Config(environ={"K": value} if where == "env" else {})
    got, error = attempt(lambda: config("K", cast=bool) if where == "env" else config("K", cast=bool, default=value))
    if error is None:
        S.check(got is True or got is False, "a boolean")
        S.check(true if got else false, "only for these words")
        S.cover("true" if got else "false")
    else:
        S.check(isinstance(error, ValueError), "ValueError")
        S.check(S.Not(S.Or(true, false)), "never for these words")
        S.cover("invalid")


def h_int(S):
    """Integers."""
    value = S.str("value", 0, S.q(4, 6), ranges=[(" ", "~")])
    config = Config(environ={"K": value})
    got, error = attempt(lambda: config("K", cast=int))
    want, bad = attempt(lambda: int(value))
    S.check((error is None) == (bad is None), "accepted exactly if int() accepts it")
    if error is None:
        S.check(got == want, "the number")
        S.cover("value")
    else:
        S.check(isinstance(error, ValueError), "ValueError")
        S.cover("invalid")


def h_cast_failures(S):
    """Every kind of cast reports invalid values alike."""
    kind = S.choice("kind", ["class", "function", "lambda", "partial", "object", "method"])

    def number(v):
        return int(v)

    class Caster:
        def __call__(self, v):
            return int(v)

        def convert(self, v):
            return int(v)

    cast = {"class": int, "function": number, "lambda": lambda v: int(v), "partial": functools.partial(int, base=10), "object": Caster(), "method": Caster().convert}[kind]
    value = S.str("value", 0, 2, alphabet="07ax")
    config = Config(environ={"K": value})
    got, error = attempt(lambda: config("K", cast=cast))
    if S.And(len(value) > 0, *[S.one_of(c, "07") for c in value]):
        S.check(error is None and got == int(value), "the number")
        S.cover("value")
    else:
        S.check(isinstance(error, ValueError), "ValueError")
        S.cover("invalid")


def h_cast_errors(S):
    """Whatever error a cast reports an invalid value with, wherever the value comes from."""
    error_class = S.choice("error", [ValueError, TypeError, UnicodeError, json.JSONDecodeError])
    bad = S.str("bad", 1, alphabet="ab")
    value = S.str("value", 1, alphabet="abc")
    where = S.choice("where", ["environment", "file", "default"])

    def cast(v):
        if v == bad:
            raise error_class("x", "y", 0) if error_class is json.JSONDecodeError else error_class("x")
        return ("cast", v)

    if where == "file":
        config = Config(environ={})
        config.file_values = {"K": value}
    else:
        config = Config(environ={"K": value} if where == "environment" else {})
    got, error = attempt(lambda: config("K", cast=cast, default=value) if where == "default" else config("K", cast=cast))
    if value == bad:
        S.check(isinstance(error, ValueError) and "'K'" in str(error), "ValueError naming the entry")
        S.cover("invalid")
    else:
        S.check(error is None and S.eq(got, ("cast", value)), "the value")
        S.cover("value")
    number, error = attempt(lambda: config("M", cast=int, default=S.choice("other", [[], object(), {}, None, 3])))
    S.check(isinstance(error, ValueError) if error is not None else number in (None, 3), "a default of another type")


def h_environ(S):
    """Read variables can no longer be changed or deleted, in every history."""
    env = {"A": "0"}
    e = Environ(env)
    config = Config(environ=e)
    model = {"A": "0"}
    read = set()
    for i in range(S.q(4, 5)):
        op = S.choice("op%d" % i, ["get", "config", "set", "del", "len"])
        key = S.choice("key%d" % i, ["A", "B"]) if op != "len" else None
        if op in ("get", "config"):
            got, error = attempt(lambda: e[key] if op == "get" else config(key))
            read.add(key)
            if key in model:
                S.check(error is None and got == model[key], "the value")
            else:
                S.check(isinstance(error, KeyError), "missing")
        elif op == "len":
            S.check(len(e) == len(model) and list(e) == list(model), "the names")
        else:
            value = "v%d" % i

            def act():
                if op == "set":
                    e[key] = value
                else:
                    del e[key]

            got, error = attempt(act)
            if key in read:
                S.check(isinstance(error, EnvironError), "a variable that was read is not changed")
                S.cover("refused")
            elif op == "set":
                model[key] = value
                S.check(error is None, "changed")
                S.cover("changed")
            elif key in model:
                del model[key]
                S.check(error is None, "deleted")
                S.cover("deleted")
            else:
                S.check(isinstance(error, KeyError), "nothing to delete")
        S.check(env == model, "the underlying environment")


def h_file(S):
    """Files with any lines."""
    text = S.str("text", 0, S.q(5, 7), alphabet="K=v#'\" \n\r")
    config = Config(S.file("env", text), environ={})
    value, known = None, True
    norm = ""
    i = 0
    while i < len(text):  # universal newlines
        if text[i] == "\r":
            norm = norm + "\n"
            if i + 1 < len(text) and text[i + 1] == "\n":
                i += 1
        else:
            norm = norm + text[i]
        i += 1
    for line in norm.split("\n"):
        line = line.strip()
        if line[:1] == "#" or "=" not in line:
            continue
        at = line.index("=")
        if line[:at].strip() != "K":
            continue
        v = line[at + 1 :].strip()
        known = True
        quotes = sum([1 for c in v if S.one_of(c, "'\"")])
        if quotes == 0:
            value = v
        elif quotes == 2 and len(v) >= 2 and v[0] == v[-1] and (v[0] == '"' or v[0] == "'"):
            value = v[1:-1]
        else:
            known = False  # unbalanced quotes: not specified
    got, error = attempt(lambda: config("K", default=None))
    S.check(error is None, "readable")
    if known:
        S.check(got is None if value is None else (got is not None and S.eq(got, value)), "the last value given")
        S.cover("absent" if value is None else "value")


def h_file_values(S):
    """Any value in a file, plain or quoted."""
    quote = S.choice("quote", ["", '"', "'"])
    n = S.q(3, 5)
    if quote:
        value = S.str("value", 0, n, ranges=[(" ", "!"), ("#", "&"), ("(", "~")])
    else:
        value = S.str("value", 0, n, ranges=[("!", "!"), ("#", "&"), ("(", "~")])
    pad = S.choice("pad", ["", " ", "\t"])
    end = S.choice("end", ["", "\n", "\r\n"])
    old = S.flag("old")
    text = "A=1" + (end or "\n") + ("K=old" + (end or "\n")) * old + pad + "K" + pad + "=" + pad + quote + value + quote + pad + end
    if end:
        text = text + "B=2"
    config = Config(S.file("env", text), environ={})
    S.check(S.eq(config("K"), value), "the value as written")
    S.check(config("A") == "1" and (not end or config("B") == "2"), "the other lines")
    S.cover("quoted" if quote else "plain")


def h_no_file(S):
    """A missing file warns and is like an empty one."""
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        config = Config("/nonexistent/config", environ={"E": "1"})
    S.check(len(caught) == 1, "a warning")
    got, error = attempt(lambda: config("K"))
    S.check(isinstance(error, KeyError), "missing")
    S.check(config("E") == "1" and config("K", default="d") == "d", "the others")
    S.cover("missing")


def h_large(S):
    """Files of many lines, and long ones."""
    v = S.str("v", 1, 2, ranges=[("!", "!"), ("#", "&"), ("(", "~")])
    n = 400
    lines = ["KEY_%d=value %d" % (i, i) if i % 4 else "# KEY_%d=no" % (i + 1) for i in range(n)]
    lines.insert(S.choice("at", [0, n]), "K=" + v)
    lines.insert(S.choice("long", [1, 200]), "LONG=" + "x=y " * 5000 + "z")
    config = Config(S.file("env", S.choice("end", ["\n", "\r\n"]).join(lines)), environ={"KEY_1": "environment"}, env_prefix=S.choice("prefix", ["", "KEY_"]))
    prefixed = config.env_prefix == "KEY_"
    if prefixed:
        S.check(config("1") == "environment" and config("399", cast=str) == "value 399" and config("396", default=None) is None, "each line's value")
    else:
        S.check(S.eq(config("K"), v), "the value")
        S.check(config("KEY_1") == "environment" and config("KEY_2") == "value 2" and config("KEY_399") == "value 399" and config("KEY_396", default=None) is None, "each line's value")
        S.check(config("LONG") == "x=y " * 5000 + "z", "a long value")
    S.cover("prefixed" if prefixed else "plain")


ASSUMPTIONS = [
    "values in files of printable ASCII; values with unbalanced quotes are not specified",
    "reading a variable that is not set counts as reading it",
]
HARNESSES = [
    dict(name="h_precedence", covers=["environment", "file", "default", "missing", "invalid"], bounds="every presence combination, environment values of <= 2 and file values of <= 1 characters of an alphabet, 5 defaults, 5 casts, 2 prefixes with decoys"),
    dict(name="h_bool", covers=["true", "false", "invalid"], bounds="every text of <= 5 (thorough 6) characters up to U+017F"),
    dict(name="h_int", covers=["value", "invalid"], bounds="every text of <= 4 (thorough 6) printable ASCII characters"),
    dict(name="h_cast_errors", covers=["value", "invalid"], bounds="casts failing with 4 kinds of errors, values from each source of one character, 5 defaults of other types"),
    dict(name="h_cast_failures", covers=["value", "invalid"], bounds="6 kinds of casts, texts of <= 2 characters"),
    dict(name="h_environ", covers=["refused", "changed", "deleted"], bounds="every sequence of 4 (thorough 5) reads, writes and deletions of 2 variables"),
    dict(name="h_file", covers=["absent", "value"], bounds="every file of <= 5 (thorough 7) characters over K=v#, quotes, space and line ends"),
    dict(name="h_file_values", covers=["quoted", "plain"], bounds="every value of <= 3 (thorough 5) printable ASCII characters, 3 quotings, 3 paddings, 3 line ends, given twice or once"),
    dict(name="h_no_file", covers=["missing"], bounds="one missing file"),
    dict(name="h_large", covers=["prefixed", "plain"], bounds="402 lines, one of 20000 characters, one with any value of 1..2 printable ASCII characters"),
]
