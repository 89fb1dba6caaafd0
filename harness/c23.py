"""C23: redirect and download headers cannot be broken out of."""
import os
import tempfile
from urllib.parse import unquote

from hlib import call, http_scope

from starlette.datastructures import URL
from starlette.responses import FileResponse, RedirectResponse

UNRESERVED = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~"
RESERVED = ":/%#?=@[]!$&'()*+,;"
HEX = "0123456789ABCDEF"


def pct(data):
    out = ""
    for b in data:
        out = out + "%" + chr(nibble(b // 16)) + chr(nibble(b % 16))
    return out


def nibble(v):
    return SREF.If(v < 10, v + 48, v + 55)


SREF = None


def quoted(S, text, safe):
    """Reference: safe characters stay, every other becomes the escapes of its UTF-8 bytes."""
    global SREF
    SREF = S
    out = ""
    for c in text:
        if c in safe:
            out = out + c
        else:
            out = out + pct(c.encode("utf-8"))
    return out


def printable(S, text):
    return S.And(*[S.And(ord(c) > 0x20, ord(c) < 0x7F) for c in text])


def location(S, r):
    ch = call(r, http_scope())
    vals = ch.header(b"location")
    S.check(len(vals) == 1, "one Location header")
    return ch, vals[0].decode("latin-1")


def h_redirect(S):
    """The Location of a redirect to any target."""
    target = S.str("target", 0, S.q(3, 4))
    ch, loc = location(S, RedirectResponse(target))
    S.check(ch.status == 307, "status")
    S.check(printable(S, loc), "Location is not printable ASCII")
    S.check(S.eq(loc, quoted(S, target, UNRESERVED + RESERVED)), "Location is not the target with the unsafe characters escaped")
    S.cover("any")


def h_keeps(S):
    """A target that is already a legal URL is sent as it is."""
    target = S.str("target", 0, S.q(4, 6), alphabet=UNRESERVED + RESERVED)
    kind = S.choice("kind", ["text", "url", "headers"])
    status = S.int("status", 300, 399)
    if kind == "text":
        r = RedirectResponse(target, status_code=status)
    elif kind == "url":
        r = RedirectResponse(URL(target), status_code=status)
    else:
        r = RedirectResponse(target, status_code=status, headers={"Location": "/other", "x-a": "1"})
    ch, loc = location(S, r)
    S.check(S.eq(ch.status, status), "status")
    S.check(S.eq(loc, target), "a legal target was changed")
    S.check(ch.body == b"", "body")
    S.check(ch.header(b"x-a") == ([b"1"] if kind == "headers" else []), "other headers")
    S.cover(kind)


def h_decodes(S):
    """Decoding the Location gives the text the target stands for."""
    target = S.str("target", 0, S.q(3, 4), alphabet="%2c3A /\u00e9\n")
    ch, loc = location(S, RedirectResponse(target))
    S.check(S.eq(unquote(loc), unquote(target)), "Location does not decode to the target")
    S.cover("decoded")


def disposition(S, name, kind):
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, "f")
        with open(path, "wb") as f:
            f.write(b"x")
        args = {} if kind is None else {"content_disposition_type": kind}
        ch = call(FileResponse(path, filename=name, media_type="text/plain", **args), http_scope())
    finally:
        os.unlink(path)
        os.rmdir(d)
    vals = ch.header(b"content-disposition")
    S.check(len(vals) == 1, "one Content-Disposition header")
    return vals[0].decode("latin-1")


def check_disposition(S, name, kind):
    value = disposition(S, name, kind)
    head = (kind or "attachment") + "; "
    S.check(S.And(*[S.And(ord(c) >= 0x20, ord(c) < 0x7F) for c in value]), "Content-Disposition is not printable ASCII")
    if value.startswith(head + 'filename="'):
        inner = value[len(head) + 10 : -1]
        S.check(value[-1] == '"', "unterminated quoted string")
        S.check(S.And(*[S.And(c != '"', c != "\\") for c in inner]), "the quoted name can be broken out of")
        S.check(S.eq(inner, name), "the quoted name is not the file name")
        S.cover("plain")
    else:
        start = head + "filename*=utf-8''"
        S.check(value.startswith(start), "neither form of file name")
        inner = value[len(start) :]
        S.check(S.And(*[S.one_of(c, UNRESERVED + "%/!#$&+^`|") for c in inner]), "a character not allowed in an extended value")
        S.check(S.eq(inner, quoted(S, name, UNRESERVED + "/")), "the extended name does not decode to the file name")
        S.cover("extended")


def h_filename(S):
    """The Content-Disposition of a download of any name."""
    check_disposition(S, S.str("name", 0, S.q(3, 4)), S.choice("kind", [None, "inline"]))


def h_tricky(S):
    """Longer names over the characters that delimit header values."""
    check_disposition(S, "a" + S.str("name", 1, S.q(3, 5), alphabet="\"\\;=%'\r\n\0* /b"), None)


ASSUMPTIONS = ["targets and names contain no lone surrogates"]
HARNESSES = [
    dict(name="h_redirect", covers=["any"], bounds="every target of length <= 3 (thorough 4) over all Unicode characters"),
    dict(name="h_keeps", covers=["text", "url", "headers"], bounds="every target of length <= 4 (6) over the unreserved and reserved characters and %, as text, as URL, over a supplied header; any 3xx status"),
    dict(name="h_decodes", covers=["decoded"], bounds="targets of length <= 3 (4) over escapes, space, slash, newline and a non-ASCII letter"),
    dict(name="h_filename", covers=["plain", "extended"], bounds="every file name of length <= 3 (4) over all Unicode characters, attachment and inline"),
    dict(name="h_tricky", covers=["plain", "extended"], bounds="names of length <= 4 (6) over the characters that delimit header values"),
]
