"""C29: the request target."""
import ipaddress
import re

from hypothesis import strategies as st

from pbt import lib, rfc
from pbt.core import Check, require, same
from pbt.lib import names

RULE = "a case is one request target; non-trivial when it has an authority and at least one of: non-ASCII or percent-encoded characters, an IP literal, userinfo, a port, a query or a fragment, or when it is not a URI"
ASSUMPTIONS = ["white space around a target is ignored", "in the userinfo, path, query and fragment, a character that a URI cannot contain is percent-encoded as UTF-8 and not reported (the library reads the target as an IRI)",
               "hosts with non-ASCII characters are lower-case letters that IDNA's preparation leaves alone, in labels of at most 63 characters"]
S = st.sampled_from
UNRES = "abzABZ059-._~"
SUB = "!$&'()*+,;="
OK = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~" + SUB)
HEX = set("0123456789abcdefABCDEF")
WIDE = "éßあ中\U0001f600\u0301\xa0\x80𐀀"
BAD = ' "<>\\^`{|}\t\n\x00\x7f\x1f'
LETTERS = "абвгдежзийклмнопрстуфхцчшщыэюяαβγδεηιλμνωàçéêöüøñ"
HOSTS = {"bücher.example": "xn--bcher-kva.example", "例え.テスト": "xn--r8jz45g.xn--zckzah", "пример.испытание": "xn--e1afmkfd.xn--80akhbyknj4f", "www.öko.de": "www.xn--ko-eka.de"}


def all_chars(s, extra):
    i = 0
    while i < len(s):
        if s[i] == "%":
            if len(s) < i + 3 or not set(s[i + 1:i + 3]) <= HEX:
                return False
            i += 3
        elif s[i] in OK or s[i] in extra:
            i += 1
        else:
            return False
    return True


def ip_literal(s):
    if s[:1] in ("v", "V"):
        n, dot, rest = s[1:].partition(".")
        return bool(n and dot and rest and set(n) <= HEX and all(c in OK or c == ":" for c in rest))
    if not s.isascii() or "%" in s:
        return False
    try:
        ipaddress.IPv6Address(s)
    except ValueError:
        return False
    return True


def valid_uri(s):
    "RFC 3986: scheme, ':', hier-part, query, fragment"
    scheme, colon, rest = s.partition(":")
    if not colon or not re.fullmatch("[A-Za-z][A-Za-z0-9+.-]*", scheme):
        return False
    rest, _, frag = rest.partition("#")
    rest, _, query = rest.partition("?")
    if rest.startswith("//"):
        authority, slash, path = rest[2:].partition("/")
        userinfo, at, host = authority.rpartition("@")
        if not all_chars(userinfo, ":"):
            return False
        if host.startswith("["):
            lit, end, port = host[1:].partition("]")
            if not end or not ip_literal(lit) or (port and port[0] != ":"):
                return False
            port = port[1:]
        else:
            host, _, port = host.partition(":")
            if not all_chars(host, ""):
                return False
        if not re.fullmatch("[0-9]*", port):
            return False
        path = slash + path
    else:
        path = rest
    return all_chars(path, ":@/") and all_chars(query, ":@/?") and all_chars(frag, ":@/?")


def quoted(text, extra):
    return "".join(c if c in OK or c in extra or c == "%" else "".join(f"%{b:02X}" for b in c.encode("utf-8")) for c in text)


def encoded(iri):
    "what a URI can't contain encoded, outside the host and port"
    rest, sharp, frag = iri.partition("#")
    rest, mark, query = rest.partition("?")
    scheme, authority, path = re.match(r"([^:/]*:)?(//[^/]*)?(.*)", rest, re.S).groups(default="")
    user, at, host = authority[2:].rpartition("@")
    uri = scheme + authority[:2] + quoted(user, ":") + at + host + quoted(path, ":@/") + mark + quoted(query, ":@/?")
    return uri, uri + sharp + quoted(frag, ":@/?")


@st.composite
def chars(draw, extra, n=8):
    alpha = st.one_of(S(UNRES + SUB + extra), S(UNRES + SUB + extra), S(UNRES + extra), S(["%41", "%2f", "%C3%A9", "%00"]))
    mode = draw(st.integers(0, 9))
    if mode >= 7:
        alpha = st.one_of(alpha, S(WIDE))
    if mode == 9:
        alpha = st.one_of(alpha, S(BAD), S(["%", "%4", "%zz", "%4g"]))
    return "".join(draw(st.lists(alpha, max_size=n)))


@st.composite
def host(draw):
    "(as written, as stored)"
    kind = draw(st.integers(0, 11))
    if kind <= 3:
        h = draw(S(["example.com", "EXAMPLE.com", "a", "", "localhost", "a..b", "xn--bcher-kva.example", "a_b~c", "1.2.3.4", "256.1.1.1", "x" * 64 + ".com", "a%41!$", ".", "x" * 300]))
        return h, h
    if kind <= 5:
        h = draw(S(["::1", "::", "2001:DB8::7", "1:2:3:4:5:6:7:8", "::ffff:1.2.3.4", "1::8", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1:2:3:4:5:6:1.2.3.4", "fe80::1%25en", "1:2", "12345::", ":::", "::1.2.3.256", "1:2:3:4:5:6:7:8:9", "1::2::3",
                    "v1.a", "V1.a", "vF.~:x", "v.a", "v1.", "vg.a", "1.2.3.4", ""])) if draw(st.booleans()) else ":".join(draw(st.lists(S(["", "", "1", "ab", "FFFF", "0", "12345", "g", "1.2.3.4"]), min_size=2, max_size=9)))
        return f"[{h}]", f"[{h}]"
    if kind <= 7:
        h = draw(S(sorted(HOSTS)))
        return h, HOSTS[h]
    if kind <= 9:
        labels = draw(st.lists(st.one_of(st.text(LETTERS, min_size=1, max_size=12), S(["com", "Example", "a-b"])), min_size=1, max_size=4))
        enc = [x if x.isascii() else "xn--" + x.encode("punycode").decode() for x in labels]
        return ".".join(labels), ".".join(enc)
    h = draw(chars("", 10).filter(lambda x: x.isascii() and not set(x) & set("/?#@ :[]\t\n")))
    return h, h


@st.composite
def target(draw):
    if draw(st.integers(0, 7)) == 0:
        t = draw(st.one_of(st.text(S(UNRES + SUB + ":/?#@%[]"), max_size=12), S(["", "/", "*", "example.com:80", "/a?b", "//a/b", "http:", "http:a", "a:b", "1a://b", "-:x", "http:///x", ":", "http://[::1", "http://a]/", "http://[/", "http:////a"])))
        return {"iri": t}
    scheme = draw(S(["http", "https", "HTTP", "a+b-c.9", "x", "1x", "h_t", "", "hé"])) if draw(st.integers(0, 5)) == 0 else draw(S(["http", "https", "HTTPS"]))
    iri = uri = scheme + ":"
    path = draw(chars(":@/", 12))
    if draw(st.integers(0, 9)):
        u = draw(chars(":", 5)) + draw(S(["", "", "", "@", "@b"])) + "@" if draw(st.integers(0, 3)) == 0 else ""
        if set(u[:-1]) & set("/?#[]"):
            u = ""
        h, hs = draw(host())
        port = draw(S(["", "", ":", ":80", ":65536", ":0080", ":8x", ":8:8"]))
        if not hs.isascii() or h != hs:
            port = draw(S(["", ":", ":80"]))
        iri += "//" + u + h + port
        uri += "//" + (quoted(u[:-1], ":") + u[-1:]) + hs + port
        if path[:1] != "/" and path:
            path = "/" + path
    elif path.startswith("//"):
        path = "/x" + path
    long = draw(st.integers(0, 9)) == 9
    query = "?" + draw(chars(":@/?")) if draw(st.integers(0, 2)) else ""
    frag = "#" + draw(chars(":@/?")) if draw(st.integers(0, 3)) == 0 else ""
    if frag and draw(st.integers(0, 5)) == 0:
        frag += draw(S(["\n", "#", "\r\n", "\u2028", "a#b", "?", "[", "\x0b", "\x85"])) + "x"
    if long:
        at = draw(S([8000, 8000, 8001, 7999, 8003, 20000]))
        room = at - len(uri + quoted(path, ":@/") + quoted(query, ":@/?"))
        pad = draw(S(["x" * room, "é" * (room // 6) + "y" * (room % 6)])) if room > 0 else ""
        if draw(st.booleans()) and query:
            query += pad
        else:
            path = path + pad if path.startswith("/") else "/" + pad[1:] + path
        if draw(st.integers(0, 3)) == 0:
            frag = "#" + "f" * 9000
    iri += path + query
    uri += quoted(path, ":@/") + quoted(query, ":@/?")
    iri += frag
    full = uri + ("#" + quoted(frag[1:], ":@/?") if frag else "")
    return {"iri": iri, "uri": uri, "full": full}


def check(c, rec):
    iri = c["iri"]
    if iri != iri.strip():
        rec.label("white space around")
    linter = lib.lint(lib.req(headers=[(b"User-Agent", b"x")], uri=iri.encode("utf-8")))
    got = [n for n in names(linter) if n.startswith("URI_")]
    same(linter.iri, iri, "the target as it was sent is not kept", target=iri)
    uri = c.get("uri")
    if uri is None:
        stored, full = encoded(iri)
        ok = valid_uri(full)
        rec.nt(not ok)
        rec.label("raw: " + ("valid" if ok else "invalid"))
        want = [] if ok else ["URI_BAD_SYNTAX"]
        same(got, want, "this target is reported wrongly" if ok else "this target cannot be a URI and is not reported once", target=iri)
        if ok:
            same(linter.uri, stored, "the stored URI differs from the (valid) target", target=iri)
        return
    if iri != iri.strip():
        return
    ok = valid_uri(c["full"])
    long = len(uri) > 8000
    rec.label("valid" if ok else "invalid")
    rec.nt(True)
    if long:
        rec.label("long")
    if len(uri) == 8000:
        rec.label("at the limit")
    if not iri.isascii():
        rec.label("IRI")
    if ok:
        same(linter.uri, uri, "the stored URI is not the target with what a URI cannot contain encoded, and no fragment", target=iri[:300])
    same([n for n in got if n == "URI_BAD_SYNTAX"], [] if ok else ["URI_BAD_SYNTAX"], "a valid target is reported as bad syntax" if ok else "a target that cannot be a URI is not reported once", target=iri[:300], uri=c["full"][:300])
    if ok:
        same("URI_TOO_LONG" in got, long, "URI_TOO_LONG must be given exactly above 8000 characters", length=len(uri))
        same(got.count("URI_TOO_LONG"), int(long), "URI_TOO_LONG repeated")
        if long:
            n = [n for n in linter.notes if type(n).__name__ == "URI_TOO_LONG"][0]
            require(re.sub(r"\D", "", n.summary) == str(len(uri)), "URI_TOO_LONG gives another length", length=len(uri), summary=n.summary)


def check_bytes(c, rec):
    "not UTF-8, whatever it is: still linted, and stored as ASCII"
    t = c["t"]
    linter = lib.lint(lib.req(headers=[(b"User-Agent", b"x")], uri=b"http://example.com/" + t))
    text = t.decode("utf-8", "replace")
    rec.nt("\ufffd" in text)
    path = text.partition("#")[0]
    p, q, query = path.partition("?")
    if text != text.rstrip():
        return
    want = "http://example.com/" + quoted(p, ":@/") + q + quoted(query, ":@/?")
    same(linter.uri, want, "the stored URI differs", target=t)
    ok = valid_uri(want) and all_chars(quoted(text.partition("#")[2], ":@/?"), ":@/?")
    same([n for n in names(linter) if n.startswith("URI_")], [] if ok else ["URI_BAD_SYNTAX"], "what is said about the target", target=t)


def edges(tier):
    "with what a URI can contain: anything else is encoded first"
    allowed = set(UNRES + SUB + ":/?#@%[]")
    texts = dict.fromkeys(rfc.grammar().edges("URI") + rfc.grammar().edges("URI-reference"))
    return [{"iri": t} for t in texts if set(t) <= allowed]


WIDE_DELIMS = {"\u2100": "a/c", "\uff0f": "/", "\uff03": "#", "\uff1f": "?", "\uff20": "@", "\uff1a": ":", "\u2048": "?!", "\u2105": "c/o", "\uff3b": "[", "\uff3d": "]"}


@st.composite
def hosts(draw):
    "non-ASCII hosts, and whether there can be such a name"
    label = st.one_of(st.text(LETTERS, min_size=1, max_size=8), S(["com", "Example", "a-b", "x1"]))
    labels = draw(st.lists(label, min_size=1, max_size=3))
    how = draw(S(["name", "name", "empty", "long", "ace", "delim", "delim"]))
    at = draw(st.integers(0, len(labels) - 1))
    if how == "empty":
        labels.insert(at, "")
    elif how == "long":
        labels[at] = "\u00e9" * 80
    elif how == "ace":
        labels[at] = "xn--" + labels[at] + "\u00e9"
    elif how == "delim":
        labels[at] += draw(S(sorted(WIDE_DELIMS))) + draw(S(["", "a"]))
    if all(x.isascii() for x in labels):
        labels[-1] += "\u00e9"
    tail = draw(S(["", "/", "/a", "/a?b", "?q", "#f", "/" + "x" * 9000])) + draw(S(["", "#f", "#a#b"]))
    tail = tail if tail.count("#") < 2 else "#f"
    return {"host": draw(S([".", ".", "\u3002", "\uff0e"])).join(labels), "ok": how == "name", "port": draw(S(["", ":", ":8080"])), "user": draw(S(["", "", "u@", "u:\u00e9@"])), "tail": tail}


def check_hosts(c, rec):
    iri = "http://" + c["user"] + c["host"] + c["port"] + c["tail"]
    linter = lib.lint(lib.req(headers=[(b"User-Agent", b"x")], uri=iri.encode("utf-8")))
    got = [n for n in names(linter) if n.startswith("URI_")]
    rec.label("a name" if c["ok"] else "not a name")
    rec.nt(True)
    if c["ok"]:
        labels = [x if x.isascii() else "xn--" + x.lower().encode("punycode").decode() for x in re.split("[.\u3002\uff0e]", c["host"])]
        want = "http://" + quoted(c["user"][:-1], ":") + c["user"][-1:] + ".".join(labels) + c["port"] + c["tail"].partition("#")[0]
        if max(map(len, labels)) < 64:
            same(linter.uri, want, "the stored URI", target=iri[:200])
        same(got, ["URI_TOO_LONG"] if len(want) > 8000 else [], "what is said about the target", target=iri[:200])
        again = lib.lint(lib.req(headers=[(b"User-Agent", b"x")], uri=linter.uri.encode("utf-8")))
        same(again.uri, linter.uri, "the stored URI, normalised again")
    else:
        same(got, ["URI_BAD_SYNTAX"], "what is said about a target whose host can't be a name", target=iri[:200])


CHECKS = [
    Check("hosts", hosts, check_hosts, 700, 8000, "hosts that aren't ASCII, with and without an IDNA form"),
    Check("targets", target, check, 2600, 60000, "targets built from their parts against an independent reading of RFC 3986 and RFC 3987"),
    Check("edges", None, check, enum=edges, note="targets at, and just beyond, every choice in the grammar of RFC 3986"),
    Check("bytes", lambda: st.fixed_dictionaries({"t": st.one_of(st.binary(max_size=12), st.lists(S([b"%41", b"%", b"\xff", b"\xc3\xa9", b"a", b"/", b"?", b"#", b" ", b"%ff", b"[", b"|"]), max_size=8).map(b"".join))}), check_bytes, 800, 10000, "arbitrary bytes after the authority"),
]
