"""Responses for the caching checks, and the facts a cache would work from."""
from __future__ import annotations

import email.utils

import pbt.core  # noqa: F401
from hypothesis import strategies as st

S = st.sampled_from
NOW = 1309770486
MAX = 2**31
HEURISTIC = {200, 203, 204, 206, 300, 301, 308, 404, 405, 410, 414, 501}  # RFC 9110 section 15.1
SAFE_METHODS = {"GET", "HEAD"}


def imf(t):
    return email.utils.formatdate(t, usegmt=True)


FLAGS = ["no-store", "no-cache", "private", "public", "must-revalidate", "proxy-revalidate", "no-transform", "immutable", "must-understand", "foo", "stale-while-revalidate=5", "stale-if-error=5"]
VALUELESS = {"no-store", "public", "must-revalidate", "proxy-revalidate", "immutable", "foo"}  # those that take no value do what they do with one as well
SECONDS = st.one_of(S([0, 1, 2, 59, 60, 61, 3600, 86400, MAX - 1, MAX, MAX + 1, 10**20]), st.integers(0, 200))
OFFSETS = st.one_of(S([0, 0, 1, -1, 2, -2, 60, -60, 3600, -3600, 86400, -86400, 10**7, -10**8]), st.integers(-200, 200))


def recase(draw, d):
    return draw(S([d, d, d, d.upper(), d.title()]))


@st.composite
def responses(draw):
    """A plain-data case; see build()."""
    c = {"status": draw(st.one_of(S(sorted(HEURISTIC)), S([200, 200, 200, 201, 302, 303, 307, 304, 400, 403, 409, 418, 429, 500, 502, 503, 599, 299]), st.integers(200, 599)))}
    ds = draw(st.lists(S(FLAGS), max_size=4, unique=True))
    ages = {}
    for name in ("max-age", "s-maxage"):
        if draw(st.integers(0, 2)) == 0:
            ages[name] = draw(SECONDS)
            ds.append(f"{name}={ages[name]}")
            more = draw(st.integers(0, 9))
            if more == 0:
                ds.append(f"{name}={draw(SECONDS)}")  # a repeat
        elif draw(st.integers(0, 14)) == 0:
            ds.append(name + draw(S(["", "=", "=x", "=1.5", "=+1"])))  # unusable
    if ds:
        ds = list(draw(st.permutations(ds)))
    if ds and draw(st.integers(0, 9)) == 0:
        ds = [d + draw(S(["=1", '="x"', "=x"])) if d in VALUELESS and draw(st.booleans()) else d for d in ds]
    # the first usable occurrence counts, wherever the permutation put it
    c["cc"] = [recase(draw, d) for d in ds]
    c["cc_split"] = draw(st.integers(0, 2**20))
    base = NOW
    start = draw(st.one_of(S([NOW, NOW]), OFFSETS.map(lambda o: NOW + o)))
    c["start"] = draw(S([None, float(start), float(start), float(start), start + 0.5]))
    c["date"] = draw(st.one_of(st.none(), st.just(base), OFFSETS.map(lambda o: base + o), S(["x", "", "0"])))
    c["expires"] = draw(st.one_of(st.none(), st.none(), OFFSETS.map(lambda o: base + o), S(["0", "-1", "", "x"])))
    c["age"] = draw(st.one_of(st.none(), st.none(), SECONDS, S(["x", "-1", "1.5", ""])))
    c["lm"] = draw(S([None, None, None, base - 1000, base - 1000, 0, -86400, "x"]))
    c["etag"] = draw(S([None, None, None, '"x"', 'W/"y"', "", "x", '""']))
    c["vary"] = draw(S([None, None, None, None, None, "Accept", "*", "accept, *", "Accept-Encoding, Cookie", "*, cookie"]))
    if draw(st.booleans()):
        c["request"] = {
            "method": draw(S(["GET", "GET", "GET", "HEAD", "POST", "PUT", "OPTIONS", "DELETE", "get", "QUERY"])),
            "auth": draw(S([None, None, "Authorization", "authorization", "AUTHORIZATION"])),
            "start": draw(st.one_of(st.none(), S([NOW, NOW - 1, NOW - 2, NOW + 3]).map(float), st.just(NOW - 0.25))),
            "topline": draw(S([True, True, True, True, False])),
            "auth_value": draw(S(["Basic Zm9v", "Basic Zm9v", "Bearer x", "", "x", "Digest a=b, c=d", "=,"])),
        }
    else:
        c["request"] = None
    c["order"] = draw(st.integers(0, 5))
    c["extra"] = draw(S([[], [], [("Set-Cookie", "a=b")], [("Pragma", "no-cache")], [("Warning", '110 - "x"')], [("CDN-Cache-Control", "no-store")], [("Content-Type", "text/plain")], [("Cache-Control", "")]]))
    return c


def build(c):
    hs = []
    if c["cc"]:
        groups, cur = [], []
        for i, d in enumerate(c["cc"]):
            cur.append(d)
            if c["cc_split"] >> i & 1:
                groups.append(cur)
                cur = []
        if cur:
            groups.append(cur)
        hs += [("Cache-Control", ", ".join(g)) for g in groups]
    for name, key in (("Date", "date"), ("Expires", "expires"), ("Last-Modified", "lm")):
        if c[key] is not None:
            hs.append((name, imf(c[key]) if isinstance(c[key], int) else c[key]))
    for name, key in (("Age", "age"), ("ETag", "etag"), ("Vary", "vary")):
        if c[key] is not None:
            hs.append((name, str(c[key])))
    hs += c["extra"]
    k = c["order"] % (len(hs) or 1)
    # rotating may move Cache-Control lines past each other, so only rotate the others
    cc, rest = [h for h in hs if h[0] == "Cache-Control"], [h for h in hs if h[0] != "Cache-Control"]
    k = min(k, len(rest))
    hs = rest[:k] + cc + rest[k:]
    m = {"kind": "response", "top": (b"HTTP/1.1", str(c["status"]).encode(), b"x"), "headers": [(n.encode(), v.encode()) for n, v in hs], "chunks": [], "start": c["start"]}
    r = c["request"]
    if r is not None:
        m["related"] = {"kind": "request", "top": (r["method"].encode(), b"http://example.com/", b"HTTP/1.1") if r["topline"] else None, "headers": [(b"Host", b"example.com")] + ([(r["auth"].encode(), r.get("auth_value", "Basic Zm9v").encode())] if r["auth"] else []), "chunks": [], "start": r["start"]}
    return m


def usable(v):
    return isinstance(v, int)


def directives(c):
    """name -> value of the first usable occurrence of each directive."""
    out = {}
    for d in c["cc"]:
        name, eq, value = d.partition("=")
        name = name.lower()
        if name in ("max-age", "s-maxage", "stale-while-revalidate", "stale-if-error"):
            if not value.isdigit():
                continue
            value = int(value)
        out.setdefault(name, value)
    return out


def storable(c):
    """RFC 9111 section 3: (private, shared)."""
    d, r = directives(c), c["request"]
    if c["vary"] is not None and "*" in [v.strip() for v in c["vary"].split(",")]:
        return False, False
    if r is not None and r["topline"] and r["method"] not in SAFE_METHODS:
        return False, False
    if "no-store" in d:
        return False, False
    fresh = c["expires"] is not None or "max-age" in d or c["status"] in HEURISTIC or "public" in d
    private = fresh or "private" in d
    shared = (fresh or "s-maxage" in d) and "private" not in d
    if r is not None and r["auth"] and not ({"public", "must-revalidate", "s-maxage"} & set(d)):
        shared = False
    return private, shared
