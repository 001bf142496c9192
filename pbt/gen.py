"""Hypothesis strategies for HTTP messages and field values (all produce plain data)."""
from __future__ import annotations

import json
import os
import re
import string
from functools import lru_cache

import pbt.core  # noqa: F401
from hypothesis import strategies as st

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "corpus.json"), encoding="utf-8") as fh:
    CORPUS = json.load(fh)

TCHAR = "!#$%&'*+-.^_`|~" + string.digits + string.ascii_letters
TOKENS = st.text(alphabet=TCHAR, min_size=1, max_size=8)

# field names with no module of their own (deprecated/unnecessary registries, aliases, unknown)
OTHER_NAMES = [
    "Accept-Charset", "Accept-Additions", "Accept-Features", "C-Ext", "C-Man", "C-Opt", "C-PEP",
    "C-PEP-Info", "Close", "Compliance", "Content-ID", "Content-Script-Type", "Content-Style-Type",
    "Content-Version", "Cost", "Default-Style", "Derived-From", "Ext", "GetProfile", "HTTP2-Settings",
    "Label", "Man", "Message-ID", "Method-Check", "Non-Compliance", "Opt", "Optional", "PEP",
    "Pep-Info", "PICS-Label", "ProfileObject", "Protocol", "Protocol-Query", "Protocol-Request",
    "Proxy-Features", "Proxy-Instruction", "Public", "Referer-Root", "Resolution-Hint",
    "Resolver-Location", "Safe", "Security-Scheme", "Set-Txn", "SubOK", "Subst", "Surrogate-Capability",
    "Surrogate-Control", "Title", "UA-Color", "UA-Media", "UA-Pixels", "UA-Resolution",
    "UA-Windowpixels", "URI", "Version", "Want-Digest", "Digest", "X-Powered-By", "X-AspNet-Version",
    "X-Generator", "X-Varnish", "X-Runtime", "X-Pingback", "X-XSS-Protection", "Expect-CT",
    "Public-Key-Pins", "Feature-Policy", "X-Pad", "XXXXXXXXXX", "nnCoection", "Cneonction",
    "Foo", "X-Foo", "Bar-Baz",
]

DATES = [
    "Mon, 04 Jul 2011 09:08:06 GMT", "Sun, 06 Nov 1994 08:49:37 GMT", "Sunday, 06-Nov-94 08:49:37 GMT",
    "Sun Nov  6 08:49:37 1994", "Thu, 01 Jan 1970 00:00:00 GMT", "Fri, 31 Dec 9999 23:59:59 GMT",
    "Sat, 01 Jan 0001 00:00:00 GMT", "Mon, 04 Jul 2011 09:08:06 +0200", "Tue, 30 Feb 2021 25:61:61 GMT", "0", "-1",
    "Mon, 04 Jul 2011 09:08:06", "Mon, 04 Jul 2011",
]
NUMBERS = ["0", "1", "-1", "+10", "10", "60", "3600", "31536000", "1.5", "1_0", "0x10", "007", "2147483649",
           "9" * 20, "1e5", "\u00b2", "nan"]
URIS = ["/", "/foo", "//b.example/x", "http://example.com/", "https://example.com/a?b=c#d", "http://[", "http://[::1]:80/",
        "foo bar", "mailto:a@b", "data:,x", "javascript:alert(1)", "http://a:b@c/", "*", "", "?q", "#f", "http://ex%41mple/",
        "http://a:99999999/", "urn:uuid:1", "ht!tp://x/", "http://\u2100.com/"]
TRICKY = ["<script>alert(1)</script>", "`", "``<b>``", "\"", "'", "\\", "&amp;", "&", "[a](javascript:x)", "**b**", "_i_",
          "![i](http://x/)", "%0A%0A<i>", "\t", "  ", "%s", "%(x)s", "%", "{0}", "\x00", "\x7f", "\u00e9", "\u00ff", "\u00b2", "\u0085",
          "\u00a0", "\r\n", "\n\n", "    x", "<a href=x>", "-->", "</code>", "*", ",", ";", "=", ":", "()", "(", ")", "[", "]", "{", "}", "@", "?", "!", "#"]
SF_BITS = ["a", "*", "1", "-1", "1.5", "999999999999999", "\"str\"", "\"a\\\"b\"", "tok", "tok/en:x", ":aGVsbG8=:", "::", ":a:",
           "?1", "?0", "@1659578233", "@1.5", "%\"x %c3%bc\"", "%\"\"", "(a b)", "()", "(1 \"x\");q=1", ";p", ";p=1", ";p=\"x\"", ";a;b=?0", "k=v", "k", "k=(a b)",
           "k=\"http://[\"", "url=\"https://a/\"", "1234567890123456", "\"unterminated", "(a", "?2", ";;", "=", "A=1"]
JSON_BITS = ['{}', '[]', '""', '1', 'null', 'true', '{"report_to":"g","max_age":1}', '{"max_age":-1}', '{"report_to":1}',
             '{"group":"g","max_age":10,"endpoints":[{"url":"https://a/"}]}', '{"endpoints":[{}]}', '{"endpoints":"x"}',
             '{"success_fraction":2,"failure_fraction":-1,"report_to":"g","max_age":0}', '{"include_subdomains":"x"}',
             '"\\u003cscript\\u003e"', '"\\n\\n<b>"', '1e999', '-0', '[[[', '{"a":1,"a":2}', 'NaN', '{"url":"http://["}']


@lru_cache(maxsize=None)
def vocab(canonical):
    """Words and separators seen in the example values of a field."""
    ent = CORPUS.get(canonical, {"inputs": []})
    words = []
    for lines in ent["inputs"]:
        for line in lines:
            words.extend(w for w in re.split(r"([,;=\s\"()]+)", line) if w and len(w) < 60)
    words.extend(EXTRA_VOCAB.get(canonical, []))
    words.extend(ent.get("words", []))
    seen = []
    for w in words:
        if w not in seen:
            seen.append(w)
    return seen or ["a", "b"]


def latin(text):
    return text.encode("latin-1", "replace")


SEPS = [",", ", ", ";", "; ", "=", " ", "", ",,", " ;", '"', ":", "/"]


@lru_cache(maxsize=None)
def word(canonical):
    voc = vocab(canonical)
    return st.one_of(
        st.sampled_from(voc), st.sampled_from(voc),
        st.sampled_from(NUMBERS), st.sampled_from(DATES), st.sampled_from(URIS),
        st.sampled_from(TRICKY), st.sampled_from(SF_BITS), st.sampled_from(JSON_BITS), TOKENS,
    )


@st.composite
def mutate(draw, text):
    """Apply a few random edits to a string."""
    for _ in range(draw(st.integers(1, 3))):
        op = draw(st.integers(0, 6))
        i = draw(st.integers(0, len(text)))
        if op == 0:
            text = text[:i] + draw(st.sampled_from(TRICKY)) + text[i:]
        elif op == 1:
            j = min(len(text), i + draw(st.integers(1, 6)))
            text = text[:i] + text[j:]
        elif op == 2:
            j = min(len(text), i + draw(st.integers(1, 10)))
            text = text[:j] + text[i:j] + text[j:]
        elif op == 3:
            text = re.sub(r"\d+", lambda m: draw(st.sampled_from(NUMBERS)), text, count=1)
        elif op == 4:
            text = text[:i] + draw(st.characters(max_codepoint=255)) + text[i + 1:]
        elif op == 5:
            text = text.swapcase() if draw(st.booleans()) else text + draw(st.sampled_from(SEPS)) + text
        else:
            text = text[:i]
        text = text[:2000]
    return text


@lru_cache(maxsize=None)
def sfish(words):
    """Structured-field-like text over the names a field's own code mentions."""
    w = st.sampled_from(words)
    low = w.map(str.lower)
    bare = st.one_of(st.sampled_from(SF_BITS), w, w.map(lambda v: f'"{v}"'))
    param = st.tuples(low, st.one_of(st.just(""), bare.map(lambda v: "=" + v))).map("".join)
    params = st.lists(param, max_size=3).map(lambda ps: "".join(";" + p for p in ps))
    item = st.tuples(st.one_of(bare, st.lists(bare, max_size=3).map(lambda l: "(" + " ".join(l) + ")")), params).map("".join)
    member = st.one_of(item, st.tuples(low, params).map("".join), st.tuples(low, item).map("=".join))
    return st.lists(member, min_size=1, max_size=4).map(", ".join)


@lru_cache(maxsize=None)
def field_value(canonical):
    """Values (bytes) for the named field, from plausible to hostile."""
    ent = CORPUS.get(canonical)
    opts = []
    if ent and ent["inputs"]:
        seeds = sorted({line for lines in ent["inputs"] for line in lines})
        seeds += EXTRA_SEEDS.get(canonical, [])
        opts.append(st.sampled_from(seeds))
        opts.append(st.sampled_from(seeds).flatmap(mutate))
        opts.append(st.lists(st.sampled_from(seeds), min_size=2, max_size=3).map(", ".join))
    elif canonical in EXTRA_SEEDS:
        opts.append(st.sampled_from(EXTRA_SEEDS[canonical]))
        opts.append(st.sampled_from(EXTRA_SEEDS[canonical]).flatmap(mutate))
    w = word(canonical)
    if ent and ent.get("words"):
        opts.append(sfish(tuple(ent["words"])))
    opts.append(
        st.lists(st.tuples(w, st.sampled_from(SEPS)), min_size=1, max_size=6).map(
            lambda prs: "".join(a + b for a, b in prs)
        )
    )
    opts.append(w)
    if canonical in GRAMMARS:
        opts.append(GRAMMARS[canonical]())
        opts.append(GRAMMARS[canonical]())
        opts.append(GRAMMARS[canonical]().flatmap(mutate))
    return st.one_of(*opts).map(latin)


# example values for fields without tests of their own, and for notes the tests' values don't reach
EXTRA_SEEDS = {
    "Proxy-Authenticate": ['Basic realm="x"', "Digest a=b, c=d", "Negotiate abc=="],
    "Retry-After": ["120", "Mon, 04 Jul 2011 09:08:06 GMT", "-1"],
    "Trailer": ["Foo", "Content-Length, Foo"],
    "X-Cache": ["HIT from x"], "X-Cache-Lookup": ["MISS from x:80"],
    "Content-Transfer-Encoding": ["binary"], "P3P": ["CP=\"x\""], "MIME-Version": ["1.0"],
    "SoapAction": ['"x"'], "TCN": ["list"], "Set-Cookie2": ["a=b"], "Content-Base": ["http://x/"],
    "X-Pad": ["avoid browser bug"], "connectiox": ["close"], "cteonnt-length": ["10"],
}
EXTRA_VOCAB = {}
GRAMMARS = {}

REQ_FIELDS = sorted(k for k, e in CORPUS.items() if e["req"])
RESP_FIELDS = sorted(k for k, e in CORPUS.items() if e["resp"])
ALL_FIELDS = sorted(CORPUS)


def _case(name, how):
    if how == 0:
        return name
    if how == 1:
        return name.lower()
    if how == 2:
        return name.upper()
    return name.swapcase()


@lru_cache(maxsize=None)
def field(kind, stray=True):
    """One (name, value) pair; mostly fields valid in that kind of message."""
    good = REQ_FIELDS if kind == "request" else RESP_FIELDS
    opts = [st.sampled_from(good)] * 8
    if stray:
        opts.append(st.sampled_from(ALL_FIELDS))
        opts.append(st.sampled_from(OTHER_NAMES))
    return st.one_of(*opts).flatmap(
        lambda n: st.tuples(
            st.integers(0, 5).map(lambda h: _case(n, h if h < 4 else 0).encode()), field_value(n)
        )
    )


# fields whose checks look at each other; a message often draws from one family only
FAMILIES = {
    "response": [
        ["Cache-Control", "Cache-Control", "Age", "Date", "Expires", "Last-Modified", "ETag", "Vary", "Pragma", "CDN-Cache-Control"],
        ["Set-Cookie"], ["Set-Cookie", "Cache-Control", "Vary"],
        ["Access-Control-Allow-Origin", "Access-Control-Allow-Methods", "Access-Control-Allow-Headers", "Access-Control-Allow-Credentials", "Access-Control-Max-Age", "Access-Control-Expose-Headers", "Vary"],
        ["Reporting-Endpoints", "NEL", "Report-To", "Content-Security-Policy", "Cross-Origin-Embedder-Policy", "Cross-Origin-Opener-Policy", "Permissions-Policy",
         "Content-Security-Policy-Report-Only", "Cross-Origin-Embedder-Policy-Report-Only", "Cross-Origin-Opener-Policy-Report-Only"],
        ["Strict-Transport-Security"], ["Content-Security-Policy"],
        ["X-Frame-Options", "X-Content-Type-Options", "Referrer-Policy", "Clear-Site-Data", "Cross-Origin-Resource-Policy", "Permissions-Policy"],
        ["Content-Type", "Content-Length", "Content-Encoding", "Transfer-Encoding", "Content-Disposition", "Content-Language"],
        ["Content-Range", "Accept-Ranges", "ETag", "Content-Length"],
        ["Link", "Use-As-Dictionary", "Vary", "Accept-CH", "Speculation-Rules", "Server-Timing"],
        ["Allow", "WWW-Authenticate", "Location", "Upgrade", "Retry-After", "Proxy-Authenticate", "Connection"],
        ["Cache-Status", "Proxy-Status", "Cache-Groups", "Cache-Group-Invalidation", "Via", "Warning", "Server"],
        ["Sunset", "Deprecation", "Date", "Link"],
    ],
    "request": [
        ["Origin", "Access-Control-Request-Method", "Access-Control-Request-Headers"],
        ["Accept", "Accept-Language", "Accept-Encoding", "TE", "Available-Dictionary"],
        ["Range", "If-Range", "If-Match", "If-None-Match", "If-Modified-Since", "If-Unmodified-Since"],
        ["Authorization", "Cookie", "Cache-Control", "Pragma", "Host", "User-Agent", "Referer", "From"],
        ["Expect", "Upgrade", "Connection", "Transfer-Encoding", "Content-Length", "Content-Type"],
    ],
}


@lru_cache(maxsize=None)
def named_fields(names):
    return st.sampled_from(names).flatmap(
        lambda n: st.tuples(st.integers(0, 5).map(lambda h: _case(n, h if h < 4 else 0).encode()), field_value(n))
    )


@lru_cache(maxsize=None)
def family_headers(kind, max_size=7):
    return st.one_of(*[st.lists(named_fields(tuple(f)), min_size=1, max_size=max_size) for f in FAMILIES[kind]])


@lru_cache(maxsize=None)
def headers(kind, max_size=8, stray=True):
    base = st.lists(field(kind, stray), max_size=max_size)
    # now and then repeat one of the fields with another value
    fam = family_headers(kind)
    return st.one_of(fam, fam, st.tuples(fam, st.lists(field(kind, stray), max_size=3)).map(lambda t: t[0] + t[1]), base, st.tuples(base, base).map(lambda t: t[0] + [(n, v2) for (n, _), (_, v2) in zip(t[0], t[1])][:3] + t[1][:2]))


METHODS = [b"GET", b"HEAD", b"POST", b"PUT", b"DELETE", b"OPTIONS", b"CONNECT", b"TRACE", b"PATCH", b"get", b"FOO", b"", b"G T"]
STATUSES = st.one_of(st.sampled_from([100, 101, 102, 103, 200, 201, 204, 205, 206, 300, 301, 302, 303, 304, 305, 307, 308, 400, 401, 402, 403, 404, 406, 408, 410, 412, 418, 422, 423, 424, 425, 104, 207, 208, 226, 506, 507, 508, 510, 511,
                                      405, 407, 409, 411, 413, 414, 415, 416, 417, 421, 426, 428, 429, 431, 451, 500, 502, 503, 504, 505]),
                     st.integers(100, 999)).map(lambda i: str(i).encode())
TARGETS = [b"http://example.com/", b"/", b"*", b"http://example.com/foo?bar#baz", b"https://user@example.com:8080/a%20b", b"http://ex\xc3\xa4mple.com/\xc3\xa9",
           b"example.com:443", b"", b"http://[", b"//", b"http://a b/", b"http://" + b"a" * 70 + b".com/", b"/" + b"a" * 8001, b"http://[::1]/", b"\xff"]

TIMES = st.one_of(st.none(), st.sampled_from([0.0, 1.0, 784111777.0, 1309770486.0, 1309770500.5, 2e9]),
                  st.floats(0, 4e9, allow_nan=False), st.integers(0, 4 * 10**9).map(float))


@st.composite
def bodies(draw):
    kind = draw(st.integers(0, 7))
    if kind == 0:
        return b""
    if kind == 1:
        return draw(st.binary(max_size=60))
    if kind == 2:
        return b"<!DOCTYPE html><html><body>hi</body></html>"
    if kind == 3:
        return '{"caf\u00e9": "\u20ac \u4f60\u597d"}'.encode(draw(st.sampled_from(["utf-8", "utf-16", "gbk"])), "replace")
    if kind == 4:
        import gzip
        return gzip.compress(draw(st.binary(max_size=60)), mtime=0)
    if kind == 5:
        import brotli
        return brotli.compress(draw(st.binary(max_size=60)), quality=1)
    if kind == 6:
        return draw(st.sampled_from([b"\x89PNG\r\n\x1a\n", b"GIF89a", b"%PDF-1.4", b"\xef\xbb\xbfx", b"\xff\xfex\x00", b"\x1f\x8b\x08\x00", b"a" * 8191 + b"\xc3\xa9" * 5]))
    return draw(st.text(max_size=40)).encode("utf-8", "surrogatepass")


@st.composite
def split(draw, body, max_parts=5):
    cuts = sorted(draw(st.lists(st.integers(0, len(body)), max_size=max_parts - 1)))
    cuts = [0] + cuts + [len(body)]
    return [body[a:b] for a, b in zip(cuts, cuts[1:])]


@st.composite
def message(draw, kind=None, related=True, max_headers=8, options=True, stray=True, body=True):
    kind = kind or draw(st.sampled_from(["response", "response", "request"]))
    m = {"kind": kind}
    if kind == "request":
        m["top"] = (draw(st.sampled_from(METHODS)), draw(st.sampled_from(TARGETS)), b"HTTP/1.1")
    else:
        m["top"] = (b"HTTP/1.1", draw(STATUSES), draw(st.sampled_from([b"OK", b"", None, b"\xff\xfe"])))
    m["headers"] = draw(headers(kind, max_headers, stray))
    m["chunks"] = []
    if body and draw(st.booleans()):
        data = draw(bodies())
        if kind == "response" and draw(st.integers(0, 3)) == 0:
            m["headers"] = m["headers"] + [(b"Content-Length", str(len(data)).encode())]
        if kind == "response" and draw(st.integers(0, 3)) == 0:
            m["headers"] = m["headers"] + [(b"Content-Type", draw(st.sampled_from([b"text/html", b"text/plain; charset=utf-8", b"application/json", b"text/html;charset=iso-8859-1", b"image/png"])))]
        m["chunks"] = draw(split(data))
    if draw(st.integers(0, 3)) == 0:
        m["trailers"] = draw(st.lists(field(kind, stray), max_size=3))
    if options:
        m["start"] = draw(TIMES)
        if draw(st.integers(0, 5)) == 0:
            m["no_content"] = True
        if kind == "response" and draw(st.integers(0, 8)) == 0:
            m["head"] = True
        if draw(st.integers(0, 8)) == 0:
            m["complete"] = False
        m["base"] = draw(st.sampled_from([None, "http://example.com/foo/bar", "https://example.com/", "http://["]))
    if related and draw(st.integers(0, 2)) == 0:
        other = "request" if kind == "response" else "response"
        m["related"] = draw(message(kind=other, related=False, max_headers=5, options=options, stray=stray, body=body))
    return m


from pbt import grammars  # noqa: E402,F401  pylint: disable=wrong-import-position


# a value of any field
ALL_VALUES = st.sampled_from(ALL_FIELDS).flatmap(field_value)
