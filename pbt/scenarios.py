"""Messages aimed at the checks that look across fields, messages, times and bodies."""
from __future__ import annotations

import email.utils
import gzip

import pbt.core  # noqa: F401
from hypothesis import strategies as st

from pbt import gen

NOW = 1309770486  # Mon, 04 Jul 2011 09:08:06 GMT
S = st.sampled_from


def imf(t):
    return email.utils.formatdate(t, usegmt=True).encode()


@st.composite
def near(draw, spread=(0, 1, 5, 6, 60, 3600, 86400, 10**7, 10**9)):
    return NOW + draw(S([-1, 1])) * draw(S(list(spread)))


DELTAS = S(["0", "1", "5", "60", "3600", "86400", "31536000", "-1", "x", "1.5", "99999999999999999999"]).map(str.encode)


@st.composite
def caching(draw):
    cc = draw(st.lists(st.one_of(
        S(["no-store", "no-cache", "private", "public", "must-revalidate", "proxy-revalidate", "no-transform",
           "immutable", "stale-while-revalidate=5", "stale-if-error=5", "must-understand", "no-cache=\"set-cookie\"", "private=\"x\"", "pre-check=1", "post-check=2", "foo"]),
        DELTAS.map(lambda d: "max-age=" + d.decode()), DELTAS.map(lambda d: "s-maxage=" + d.decode())), max_size=5))
    hs = [(b"Cache-Control", ", ".join(cc).encode())] if cc else []
    for name, strat in ((b"Date", near().map(imf)), (b"Expires", st.one_of(near().map(imf), S([b"0", b"-1", b"x"]))),
                        (b"Last-Modified", near().map(imf)), (b"Age", DELTAS), (b"ETag", S([b'"x"', b"x"])),
                        (b"Vary", S([b"*", b"Accept", b"Cookie"])), (b"Pragma", S([b"no-cache"])),
                        (b"Set-Cookie", S([b"a=b", b"a=b; Secure; SameSite=None"]))):
        if draw(st.integers(0, 2)) == 0:
            hs.append((name, draw(strat)))
    hs = draw(st.permutations(hs))
    m = {"kind": "response", "top": (b"HTTP/1.1", draw(S([b"200", b"204", b"301", b"302", b"404", b"410", b"500"])), b"OK"), "headers": hs, "chunks": [],
         "start": draw(st.one_of(st.none(), near().map(float)))}
    if draw(st.booleans()):
        m["related"] = {"kind": "request", "top": (draw(S([b"GET", b"HEAD", b"POST", b"PUT"])), b"http://example.com/", b"HTTP/1.1"), "chunks": [],
                        "headers": draw(S([[], [(b"Authorization", b"Basic Zm9v")], [(b"Cookie", b"a=b")]])), "start": draw(st.one_of(st.none(), near().map(float)))}
    return m


@st.composite
def cors(draw):
    origin = draw(S([b"https://example.com", b"http://example.com:80", b"null", b"https://a.example", b"bogus", None]))
    rh = [(b"Origin", origin)] if origin else []
    if draw(st.booleans()):
        rh.append((b"Access-Control-Request-Method", draw(S([b"PUT", b"GET", b"get"]))))
    if draw(st.booleans()):
        rh.append((b"Access-Control-Request-Headers", draw(S([b"x-foo", b"x-foo, authorization"]))))
    hs = []
    for name, vals in ((b"Access-Control-Allow-Origin", [b"*", b"null", b"https://example.com", b"http://example.com:80", b"https://example.com https://a.example", b"https://a.example, https://b"]),
                       (b"Access-Control-Allow-Credentials", [b"true", b"false", b"True"]), (b"Access-Control-Allow-Methods", [b"PUT", b"*", b"GET, PUT", b"put"]),
                       (b"Access-Control-Allow-Headers", [b"x-foo", b"*", b"X-Foo, Authorization"]), (b"Access-Control-Max-Age", [b"10", b"-1", b"x"]),
                       (b"Access-Control-Expose-Headers", [b"*", b"x-foo"]), (b"Vary", [b"Origin", b"Accept"]), (b"Timing-Allow-Origin", [b"*", b"https://example.com"])):
        if draw(st.booleans()):
            hs.append((name, draw(S(vals))))
    m = {"kind": "response", "top": (b"HTTP/1.1", b"200", b"OK"), "headers": draw(st.permutations(hs)), "chunks": []}
    r = {"kind": "request", "top": (draw(S([b"OPTIONS", b"OPTIONS", b"GET"])), b"http://example.com/", b"HTTP/1.1"), "headers": rh, "chunks": []}
    how = draw(st.integers(0, 3))
    if how == 0:
        return r
    if how < 3:
        m["related"] = r
    return m


@st.composite
def status(draw):
    code = draw(st.one_of(gen.STATUSES, S([b"306", b"100", b"abc", b"", b"+200", b" 200", b"2_00", b"-1", b"0", b"1000", b"99999", b"\xb2"])))
    hs = draw(st.lists(S([(b"Location", b"/x"), (b"Allow", b"GET, POST"), (b"Date", imf(NOW)), (b"Content-Type", b"text/html"),
                          (b"Content-Range", b"bytes 0-1/2"), (b"Content-Range", b"bytes */2"), (b"Retry-After", b"10"), (b"Upgrade", b"h2c"), (b"WWW-Authenticate", b"Basic realm=x")]), max_size=3))
    m = {"kind": "response", "top": (b"HTTP/1.1", code, draw(S([b"x", b"", None, b"\xff"]))), "headers": hs, "chunks": draw(S([[], [b"abc"]]))}
    if draw(st.booleans()):
        m["related"] = {"kind": "request", "top": (draw(S(gen.METHODS)), draw(S(gen.TARGETS)), draw(S([b"HTTP/1.1", b"HTTP/1.0", b"2", b""]))), "chunks": [],
                        "headers": draw(st.lists(S([(b"Expect", b"100-continue"), (b"Range", b"bytes=0-1"), (b"If-Match", b'"x"'), (b"Accept", b"*/*"), (b"Upgrade", b"h2c"), (b"Expect", b"x")]), max_size=2))}
    return m


CHARSETS = ["utf-8", "iso-8859-1", "windows-1252", "shift_jis", "gbk", "koi8-r", "utf-16", "euc-kr", "big5", "idna", "punycode", "undefined", "unicode_escape", "raw_unicode_escape", "rot13", "hex", "utf-7", "bogus", "us-ascii", "mbcs", "a\x00b", "utf_8_sig", "base64", "zlib"]
TEXTS = ["\u041f\u0440\u0438\u0432\u0435\u0442, \u043c\u0438\u0440! " * 8, "caf\u00e9 cr\u00e8me " * 10, "\u65e5\u672c\u8a9e\u306e\u30c6\u30ad\u30b9\u30c8\u3067\u3059\u3002" * 6, "plain", "\u4f60\u597d\u4e16\u754c " * 9, "\u2018q\u2019 \u2014 \u20ac"]


@st.composite
def charset(draw):
    ct = draw(S(["text/html", "text/plain", "application/json", "application/ld+json", "image/png", "text/css"]))
    cs = draw(S(CHARSETS + [None]))
    body = draw(S(TEXTS)).encode(draw(S(["utf-8", "utf-8", "koi8-r", "windows-1252", "shift_jis", "gbk", "utf-16"])), "replace")
    if draw(st.integers(0, 5)) == 0:
        body = (body * 200)[: draw(st.integers(8180, 8300))]
    if draw(st.integers(0, 7)) == 0:
        body = draw(gen.bodies())
    hs = [(b"Content-Type", (ct + (f"; charset={cs}" if cs else "")).encode())]
    if draw(st.integers(0, 3)) == 0:
        hs.append((b"Content-Encoding", b"gzip"))
        body = gzip.compress(body, mtime=0)
        if draw(st.booleans()):
            i = draw(st.integers(0, len(body) - 1))
            body = body[:i] + bytes([body[i] ^ draw(st.integers(1, 255))]) + body[i + 1:]
    return {"kind": draw(S(["response", "response", "response", "request"])), "top": (b"HTTP/1.1", b"200", b"OK"), "headers": hs, "chunks": draw(gen.split(body, 3))} | {}


@st.composite
def large(draw):
    hs = draw(gen.headers("response", 3))
    n = draw(S([8000, 8185, 8186, 8187, 8192, 9000, 33000]))
    hs = hs + [(draw(S([b"Foo", b"Cookie2", b"Link", b"X-Long", b"Content-Security-Policy"])), b"a" * n)]
    for _ in range(draw(st.integers(0, 4))):
        hs.append((b"Big", b"b" * draw(S([8000, 8190, 8193]))))
    hs = draw(st.permutations(hs))
    return {"kind": "response", "top": (b"HTTP/1.1", b"200", b"OK"), "headers": hs, "chunks": []}


FIELDISH = st.one_of(st.binary(max_size=12), st.text(alphabet=gen.TCHAR + " :()<>`\"\\_\u00e9", max_size=12).map(gen.latin))


@st.composite
def raw(draw):
    """Anything the API's types allow."""
    kind = draw(S(["request", "response"]))
    b = st.binary(max_size=30)
    anyname = st.one_of(FIELDISH, S(gen.ALL_FIELDS + gen.OTHER_NAMES).map(str.encode),
                        S(gen.ALL_FIELDS).map(lambda n: n.replace("-", "_").encode()), S([b"_accept", b"__init__", b"tests", b"finder", b"accept.tests", b"from", b"FROM_FIELD", b"x-pad-for-netscrape-bug", b"xx-pad", b"Keep_Alive", b"", b" Date", b"Date ", b"date\t"]))
    pairs = st.lists(st.tuples(anyname, st.one_of(b, st.sampled_from(gen.ALL_FIELDS).flatmap(gen.field_value))), max_size=6)
    m = {"kind": kind, "top": draw(st.one_of(st.none(), st.tuples(b, st.one_of(b, S(gen.TARGETS)), b))), "headers": draw(pairs), "chunks": draw(st.lists(b, max_size=3))}
    if draw(st.booleans()):
        m["trailers"] = draw(pairs)
    m["start"] = draw(gen.TIMES)
    m["complete"] = draw(st.booleans())
    if draw(st.booleans()):
        m["no_content"] = draw(st.booleans())
    if kind == "response":
        m["head"] = draw(st.booleans())
    m["base"] = draw(st.one_of(st.none(), st.text(max_size=12), S(["http://[", "https://example.com/", "/x", "", "http://ex\u2100.com/"])))
    return m


@st.composite
def security(draw):
    """Messages mixing the reporting endpoint fields with the policies that name endpoints."""
    names = ["endpoint", "csp", "g", "default", "missing"]
    hs = []
    if draw(st.booleans()):
        hs.append(("Reporting-Endpoints", ", ".join(f'{draw(S(names))}="{draw(S(["https://r.example/x", "/rel", "http://insecure/", "http://[", "x y"]))}"' for _ in range(draw(st.integers(1, 3))))))
    if draw(st.booleans()):
        hs.append(("Report-To", ", ".join('{"group":"%s","max_age":%s,"endpoints":[{"url":"%s"}]}' % (draw(S(names)), draw(S(["10", "0", '"x"'])), draw(S(["https://r.example/x", "http://[", ""]))) for _ in range(draw(st.integers(1, 2))))))
    if draw(st.booleans()):
        hs.append(("NEL", '{"report_to":"%s","max_age":%s,"success_fraction":%s}' % (draw(S(names + ["<b>", "a`b", "\\u000a\\u000a<b>x"])), draw(S(["0", "10", "-1", "1.5"])), draw(S(["0", "0.5", "2"])))))
    for f in ("Cross-Origin-Embedder-Policy", "Cross-Origin-Opener-Policy", "Cross-Origin-Embedder-Policy-Report-Only", "Cross-Origin-Opener-Policy-Report-Only"):
        if draw(st.integers(0, 3)) == 0:
            hs.append((f, f'{draw(S(["require-corp", "same-origin", "unsafe-none", "credentialless", "noopener-allow-popups"]))};report-to="{draw(S(names))}"'))
    for f in ("Content-Security-Policy", "Content-Security-Policy-Report-Only"):
        if draw(st.integers(0, 3)) == 0:
            hs.append((f, f"default-src 'self'; report-to {draw(S(names))}"))
    if draw(st.integers(0, 3)) == 0:
        hs.append(("Permissions-Policy", f'geolocation=(self);report-to={draw(S(names))}, camera=({draw(S(["1", "?1", "self", "1.5", ":aa==:"]))})'))
    hs = draw(st.permutations(hs))
    m = {"kind": "response", "top": (b"HTTP/1.1", b"200", b"OK"), "headers": [(n.encode(), v.encode("latin-1", "replace")) for n, v in hs], "chunks": [],
         "base": draw(S([None, "https://example.com/a", "http://example.com/a"]))}
    if draw(st.booleans()):
        m["related"] = {"kind": "request", "top": (b"GET", draw(S([b"https://example.com/a", b"http://example.com/a", b"/"])), b"HTTP/1.1"), "headers": [], "chunks": []}
    return m


@st.composite
def conditional(draw):
    """Requests with conditionals/expectations, and the responses' validators."""
    rh = []
    for name, vals in ((b"If-None-Match", [b'"x"', b'W/"x"', b"*", b'"y", "x"']), (b"If-Match", [b'"x"', b"*"]), (b"If-Modified-Since", [imf(NOW), imf(NOW + 10**6), b"x"]),
                       (b"If-Unmodified-Since", [imf(NOW)]), (b"If-Range", [b'"x"', b'W/"x"', imf(NOW)]), (b"Range", [b"bytes=0-10", b"bytes=-", b"items=0-1"]),
                       (b"Expect", [b"100-continue", b"x"]), (b"Referer", [b"http://user:pw@example.com/", b"https://a/#frag", b"/x"]), (b"Host", [b"example.com", b"other.example"]),
                       (b"TE", [b"trailers"]), (b"Connection", [b"TE", b"close, upgrade", b"keep-alive"]), (b"Upgrade", [b"h2c"]), (b"Transfer-Encoding", [b"chunked", b"gzip, chunked", b"chunked, gzip"]),
                       (b"Content-Length", [b"0", b"3", b"3, 3", b"x"]), (b"User-Agent", [b"x/1"]), (b"Origin", [b"https://example.com"]), (b"Available-Dictionary", [b":pZGm1Av0IEBKARczz7exkNYsZb8LzaMrV7J32a2fFG4=:"]), (b"Dictionary-ID", [b'"x"'])):
        if draw(st.integers(0, 3)) == 0:
            rh.append((name, draw(S(vals))))
    version = draw(S([b"HTTP/1.1", b"1.1", b"HTTP/1.0", b"1.0", b"HTTP/2", b"2", b"3"]))
    r = {"kind": "request", "top": (draw(S([b"GET", b"POST", b"HEAD", b"OPTIONS", b"PUT"])), draw(S([b"https://example.com/", b"http://example.com/x"])), version), "headers": rh, "chunks": draw(S([[], [b"abc"]]))}
    if draw(st.booleans()):
        return r
    hs = []
    for name, vals in ((b"ETag", [b'"x"', b'W/"x"']), (b"Last-Modified", [imf(NOW), imf(NOW - 50)]), (b"Date", [imf(NOW)]), (b"Content-Range", [b"bytes 0-10/20", b"bytes */20"]), (b"Content-Length", [b"3", b"4"]),
                       (b"Transfer-Encoding", [b"chunked"]), (b"Connection", [b"close", b"upgrade, keep-alive"]), (b"Upgrade", [b"h2c"]), (b"Keep-Alive", [b"timeout=5"]), (b"Content-Location", [b"/x"]), (b"Vary", [b"Accept"]),
                       (b"Content-Encoding", [b"br", b"gzip", b"dcb"]), (b"Accept-Ranges", [b"bytes"]), (b"Use-As-Dictionary", [b'match="/x", match-dest=("bogus"), id=1', b'match="/a*"']), (b"Server", [b"x/1"])):
        if draw(st.integers(0, 3)) == 0:
            hs.append((name, draw(S(vals))))
    m = {"kind": "response", "top": (version, draw(S([b"200", b"206", b"304", b"416", b"412", b"417", b"101", b"426"])), b"OK"), "headers": draw(st.permutations(hs)), "chunks": draw(S([[], [b"abc"]])),
         "related": r, "start": draw(st.one_of(st.none(), near().map(float))), "base": draw(S([None, "https://example.com/", "http://example.com/x"]))}
    return m


def scenario():
    return st.one_of(caching(), caching(), cors(), status(), charset(), large(), raw(), raw(), security(), security(), conditional(), conditional())
