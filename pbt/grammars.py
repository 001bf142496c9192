"""Structured generators for the field values that carry most of httplint's checks.

They produce mostly plausible values with occasional faults; the property modules reuse them.
"""
from hypothesis import strategies as st

from pbt import gen
from pbt.gen import TOKENS, TRICKY, NUMBERS, DATES, URIS, SF_BITS, JSON_BITS

S = st.sampled_from
INT = st.one_of(S(["0", "1", "59", "60", "3600", "31536000", "2147483648", "2147483649", "63072000"]), st.integers(0, 10**10).map(str))
BADINT = S(["-1", "+1", "1.5", "abc", "", '"10"', "1_0", " 5", "\u00b2", "9" * 30])
NUM = st.one_of(INT, INT, INT, BADINT)
OWS = S(["", "", "", " ", "\t", "  "])


def joined(elem, sep=", ", lo=1, hi=5):
    return st.lists(elem, min_size=lo, max_size=hi).map(sep.join)


def kv(names, values):
    return st.tuples(names, values).map(lambda t: t[0] if t[1] is None else f"{t[0]}={t[1]}")


def recase(s):
    return st.one_of(s, s, s, s.map(str.upper), s.map(str.title))


def quoted(s):
    return s.map(lambda v: '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"')


CC_FLAGS = ["immutable", "must-revalidate", "must-understand", "no-store", "no-transform", "only-if-cached", "proxy-revalidate",
            "public", "private", "no-cache"]
CC_NUM = ["max-age", "max-stale", "min-fresh", "s-maxage", "stale-if-error", "stale-while-revalidate", "pre-check", "post-check"]


def cache_control():
    d = st.one_of(
        recase(S(CC_FLAGS)), kv(recase(S(CC_NUM)), NUM), kv(S(CC_NUM), INT), S(CC_NUM),
        kv(S(["no-cache", "private"]), quoted(joined(TOKENS))), kv(S(CC_FLAGS), S(["", "1", '"x"'])), kv(TOKENS, st.none() | TOKENS),
    )
    return joined(d, ", ", 1, 6)


def hsts():
    d = st.one_of(kv(recase(S(["max-age"])), NUM), kv(S(["max-age"]), INT), recase(S(["includeSubDomains", "preload"])),
                  kv(S(["includeSubDomains", "preload", "max-age"]), S(["", "1", '"1"'])), kv(TOKENS, st.none() | TOKENS), S(["", " "]))
    return st.lists(d, min_size=1, max_size=5).flatmap(lambda l: S([";", "; ", " ; "]).map(lambda s: s.join(l)))


CSP_NAMES = ["default-src", "script-src", "style-src", "object-src", "report-uri", "report-to", "img-src", "frame-ancestors",
             "upgrade-insecure-requests", "foo-src"]
CSP_VALS = ["'self'", "*", "http:", "https:", "http://a.example", "'unsafe-inline'", "'unsafe-eval'", "'none'", "csp", "data:", "endpoint"]


def csp():
    d = st.tuples(recase(S(CSP_NAMES)), st.lists(S(CSP_VALS), max_size=3)).map(lambda t: " ".join([t[0]] + t[1]))
    return st.lists(st.one_of(d, d, d, S(["", " "])), min_size=1, max_size=5).map("; ".join)


COOKIE_NAMES = ["a", "sid", "__Secure-a", "__Host-b", "__host-c", "", "<b>", "`x"]
COOKIE_DATES = DATES[:4] + ["Wed, 09 Jun 2100 10:18:14 GMT", "Jun 9 2021 10:18", "", "x", "09-Jun-21 10:18:14", "Wed, 32 Jun 2021 10:18:14", "Wed, 9 Jun 1500 10:18:14",
                            "Wed, 9 Jun 2021 24:18:14", "Wed, 9 Jun 2021 10:60:14", "Wed, 9 Jun 2021 10:10:60"]
COOKIE_ATTRS = st.one_of(
    kv(recase(S(["Expires"])), S(COOKIE_DATES)),
    kv(recase(S(["Max-Age"])), st.one_of(NUM, S(["", "00", "0", "34560001", "\u00b2"]))),
    kv(recase(S(["Domain"])), S(["", ".example.com", "example.com", "."])),
    kv(recase(S(["Path"])), S(["", "/", "/foo", "bar"])),
    recase(S(["Secure", "HttpOnly", "Partitioned", "Path", "Domain", "Max-Age", "Expires", "SameSite"])),
    kv(recase(S(["SameSite"])), S(["Strict", "Lax", "None", "none", "", "bogus"])),
    kv(S(["Priority", "Version", "Comment", "", "<i>"]), S(["High", "1", ""])),
    recase(S(["Secure", "HttpOnly"])),
)


def set_cookie():
    pair = st.tuples(S(COOKIE_NAMES), S(["=", "=", "=", ""]), st.one_of(S(["", "1", "x y", '"q"']), st.integers(100, 200).map(lambda n: "v" * n), S(["v" * 4097]))).map("".join)
    return st.tuples(pair, st.lists(COOKIE_ATTRS, max_size=6)).flatmap(lambda t: S(["; ", ";", " ; "]).map(lambda s: s.join([t[0]] + t[1])))


RELS = ["preload", "next", "stylesheet", "preconnect", "dns-prefetch", "modulepreload", "prefetch", "compression-dictionary", "alternate", "foo", "http://rel/", "preload next"]


def link():
    p = st.one_of(
        kv(S(["rel"]), st.one_of(S(RELS[:9]), quoted(S(RELS)))), kv(S(["rel", "REL"]), quoted(S(RELS))),
        kv(S(["rev"]), S(["made", '"made"'])), kv(S(["as"]), S(["script", "style", "font", '"image"'])), kv(S(["type"]), S(["text/css", '"text/css"', '"bad"', '"a/b/c"', "text"])),
        kv(S(["hreflang"]), S(["en", "de-DE", "-"])), kv(S(["anchor"]), quoted(S(URIS))), kv(S(["media"]), quoted(S(["print", "(min-width: 1px)"]))),
        kv(S(["title"]), quoted(S(["x", "a,b", "a;b", "<b>"]))), kv(S(["title*"]), S(["utf-8''x%20y", "iso-8859-1'en'%a3", "''x", "x", "\"utf-8''x\"", "utf-8''%0a%0a<b>"])),
        S(["crossorigin", "nopush", "imagesrcset"]), kv(S(["crossorigin"]), S(["anonymous", '"use-credentials"'])), kv(TOKENS, TOKENS),
    )
    one = st.tuples(st.one_of(S(URIS), S(URIS[:6])), st.lists(p, max_size=4)).map(lambda t: "; ".join([f"<{t[0]}>"] + t[1]))
    return joined(one, ", ", 1, 3)


def sf_string(s):
    return quoted(s)


SF_BARE = S(SF_BITS[:22])
SF_PARAMS = st.lists(kv(S(["a", "b", "q", "ttl", "hit", "fwd", "key", "detail", "stored", "collapsed", "fwd-status", "error", "next-hop", "rcode", "report-to", "id", "type", "match-dest"]), st.none() | SF_BARE), max_size=3).map(lambda l: "".join(";" + p for p in l))


def sf_item():
    return st.tuples(SF_BARE, SF_PARAMS).map("".join)


def sf_inner():
    return st.tuples(st.lists(sf_item(), max_size=3).map(lambda l: "(" + " ".join(l) + ")"), SF_PARAMS).map("".join)


def sf_list():
    return joined(st.one_of(sf_item(), sf_item(), sf_inner()), ", ", 1, 4)


def sf_dict(keys=("a", "b", "k", "max-age", "match", "id")):
    return joined(kv(S(list(keys)), st.one_of(sf_item(), sf_inner(), st.none())), ", ", 1, 4)


JVAL = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-5, 10**6), st.floats(-2, 2), S(["g", "https://a/", "", "<b>"])),
                    lambda c: st.lists(c, max_size=3) | st.dictionaries(S(["url", "a"]), c, max_size=2), max_leaves=4)


def _json(d):
    import json
    return json.dumps(d, ensure_ascii=True)


def nel():
    d = st.fixed_dictionaries({}, optional={
        "report_to": S(["g", "endpoint", "default", 1, None, "<b>", "\n\n<b>"]), "max_age": S([0, 10, -1, "1", 1.5, True]), "include_subdomains": S([True, False, "x", 1]),
        "success_fraction": S([0, 0.5, 1, 1.1, -0.1, "x"]), "failure_fraction": S([0.0, 1.0, 2, -1, None]), "x": JVAL}).map(_json)
    return joined(st.one_of(d, d, d, JVAL.map(_json), S(JSON_BITS)), ", ", 1, 2)


def report_to():
    ep = st.one_of(st.fixed_dictionaries({}, optional={"url": S(["https://a/", 1, None]), "priority": st.integers(0, 3)}), JVAL)
    d = st.fixed_dictionaries({}, optional={"group": S(["g", 1]), "max_age": S([0, 10, "1", None, 1.5]), "endpoints": st.lists(ep, max_size=2) | JVAL, "include_subdomains": JVAL}).map(_json)
    return joined(st.one_of(d, d, JVAL.map(_json), S(JSON_BITS)), ", ", 1, 2)


def content_range():
    n = st.one_of(st.integers(0, 100).map(str), NUM)
    return st.tuples(S(["bytes", "bytes", "items", ""]), S([" ", " ", "", "=", "  "]), st.one_of(S(["*"]), st.tuples(n, S(["-", "-", ""]), n).map("".join)), S(["/", "/", ""]), st.one_of(S(["*"]), n)).map("".join)


def range_():
    n = st.one_of(st.integers(0, 100).map(str), NUM, S([""]))
    return st.tuples(S(["bytes", "items", ""]), S(["=", "=", " "]), joined(st.tuples(n, S(["-", "-", ""]), n).map("".join), ",")).map("".join)


PERM = ["geolocation", "camera", "microphone", "fullscreen", "*", "foo"]


def permissions_policy():
    v = st.one_of(S(["()", "*", "self", "(self)", '("https://a")', '(self "https://a")', "1", "?1", '(1)', "(src)", "?0", "none", '"x"', "(self);report-to=endpoint", "*;report-to=\"csp\"", "();report-to=1"]))
    return joined(kv(S(PERM), v | st.none()), ", ", 1, 4)


REFPOL = ["no-referrer", "no-referrer-when-downgrade", "origin", "origin-when-cross-origin", "same-origin", "strict-origin", "strict-origin-when-cross-origin", "unsafe-url", "", "bogus"]


def token_params(tokens, params):
    return st.tuples(S(tokens), st.lists(params, max_size=2)).map(lambda t: ";".join([t[0]] + t[1]))


def coep():
    return token_params(["require-corp", "unsafe-none", "credentialless", "bogus", '"require-corp"', "1", "()"], S(['report-to="endpoint"', 'report-to="csp"', "report-to=x", "report-to=1", "foo"]))


def coop():
    return token_params(["same-origin", "same-origin-allow-popups", "unsafe-none", "noopener-allow-popups", "bogus", '"same-origin"', "?1"], S(['report-to="endpoint"', 'report-to="csp"', "report-to=x", "foo=1"]))


def media_type():
    t = S(["text/html", "text/plain", "application/json", "application/ld+json", "image/png", "TEXT/HTML", "text", "text/", "*/*", "text/*", "a" * 130 + "/b", "-a/b", "te xt/html", "a/b/c", "multipart/form-data"])
    p = kv(recase(S(["charset", "boundary", "q", "foo", "charset*"])),
           S(["utf-8", "UTF-8", '"utf-8"', "iso-8859-1", "'utf-8'", "bogus", "windows-1252", "idna", "undefined", "punycode", "rot13", "0.5", "1.1", "utf-8''x", '""', "shift_jis", "hex", "utf-16", "unicode_escape"]))
    return st.tuples(t, st.lists(p, max_size=3)).map(lambda t: "; ".join([t[0]] + t[1]))


def content_disposition():
    p = st.one_of(kv(S(["filename"]), st.one_of(quoted(S(["a.txt", "a%20b.txt", "/etc/passwd", "a\\b", "\u00e9", "", "a;b", 'q"q', "?"])), S(["a.txt", "a%20b", "'a'"]))),
                  kv(S(["filename*"]), S(["utf-8''x%20y", "iso-8859-1'en'%a3", "''x", "x", "\"utf-8''x\"", "utf-8''%2fetc", "UTF-8'en'%e2%82%ac", "utf-8''%ff", "utf-8''%0a%0a<b>"])),
                  kv(TOKENS, TOKENS))
    return st.tuples(S(["attachment", "inline", "INLINE", "form-data", "bogus", ""]), st.lists(p, max_size=3)).map(lambda t: "; ".join([t[0]] + t[1]))


def qlist(members, params=("q",)):
    p = kv(S(list(params) + ["q", "q", "Q", "foo"]), S(["0", "0.5", "1", "1.000", "0.1234", "1.1", "2", "-1", "", "x", '"0.5"', ".5"]))
    one = st.tuples(S(members), st.lists(p, max_size=2)).flatmap(lambda t: S([";", "; ", " ; "]).map(lambda s: s.join([t[0]] + t[1])))
    return joined(one, ", ", 1, 5)


LANGS = ["en", "en-US", "de-AT", "*", "zh-Hant-TW", "x-foo", "i-klingon", "en_US", "a", "toolonglanguage", "EN"]
CODINGS = ["gzip", "x-gzip", "br", "deflate", "identity", "compress", "*", "chunked", "zstd", "dcb", "bogus", "GZIP"]
ORIGINS = ["https://example.com", "http://example.com:80", "null", "*", "https://a.example", "https://EXAMPLE.com", "https://example.com/", "file://", "https://a b", "null https://a.example"]
ETAGS = ['"x"', 'W/"x"', "x", 'w/"x"', '""', '"x', "*", 'W/', '"a b"', '"\u00e9"']

G = gen.GRAMMARS
G.update({
    "Cache-Control": cache_control, "Strict-Transport-Security": hsts, "Content-Security-Policy": csp,
    "Content-Security-Policy-Report-Only": csp, "Set-Cookie": set_cookie, "Link": link, "NEL": nel, "Report-To": report_to,
    "Content-Range": content_range, "Range": range_, "Permissions-Policy": permissions_policy,
    "Referrer-Policy": lambda: joined(recase(S(REFPOL))),
    "Cross-Origin-Embedder-Policy": coep, "Cross-Origin-Embedder-Policy-Report-Only": coep,
    "Cross-Origin-Opener-Policy": coop, "Cross-Origin-Opener-Policy-Report-Only": coop,
    "Cross-Origin-Resource-Policy": lambda: S(["same-site", "same-origin", "cross-origin", "bogus", "Same-Origin", "same-site, same-origin", ""]),
    "Content-Type": media_type, "Content-Disposition": content_disposition,
    "Accept": lambda: qlist(["text/html", "*/*", "text/*", "*/html", "text", "application/json", "a/b/c"], ("charset", "level")),
    "Accept-Language": lambda: qlist(LANGS), "Accept-Encoding": lambda: qlist(CODINGS), "TE": lambda: qlist(["trailers", "deflate", "chunked", "gzip"]),
    "Accept-Patch": media_type, "Accept-Post": media_type, "Content-Language": lambda: joined(S(LANGS)),
    "Content-Encoding": lambda: joined(S(CODINGS)), "Transfer-Encoding": lambda: joined(st.one_of(S(CODINGS + ["chunked"]), kv(S(["chunked;a", "gzip;q"]), TOKENS))),
    "Vary": lambda: joined(recase(S(["*", "Accept", "Accept-Encoding", "Cookie", "User-Agent", "Host", "Available-Dictionary", "DPR", "Origin", "bad name"]))),
    "ETag": lambda: S(ETAGS), "If-Match": lambda: joined(S(ETAGS)), "If-None-Match": lambda: joined(S(ETAGS)), "If-Range": lambda: S(ETAGS + DATES),
    "Age": lambda: NUM, "Content-Length": lambda: st.one_of(NUM, joined(INT), S(["10, 10", "10,11"])), "Max-Forwards": lambda: NUM,
    "Access-Control-Max-Age": lambda: NUM, "Retry-After": lambda: st.one_of(NUM, S(DATES)),
    "Date": lambda: S(DATES), "Expires": lambda: S(DATES), "Last-Modified": lambda: S(DATES), "If-Modified-Since": lambda: S(DATES),
    "If-Unmodified-Since": lambda: S(DATES), "Sunset": lambda: S(DATES),
    "Deprecation": lambda: st.one_of(S(["@1688169599", "@4102444800", "@-1", "true", "?1", "@99999999999999"]), S(DATES), sf_item()),
    "Origin": lambda: S(ORIGINS), "Access-Control-Allow-Origin": lambda: S(ORIGINS),
    "Access-Control-Allow-Credentials": lambda: S(["true", "TRUE", "false", "", "true, true"]),
    "Access-Control-Request-Method": lambda: S(["GET", "PUT", "get", "FOO", "a b"]),
    "Access-Control-Allow-Methods": lambda: joined(S(["GET", "PUT", "get", "*", "FOO", "DELETE"])),
    "Access-Control-Request-Headers": lambda: joined(S(["x-foo", "Authorization", "content-type", "range"])),
    "Access-Control-Allow-Headers": lambda: joined(S(["x-foo", "X-Foo", "Authorization", "*", "content-type"])),
    "Access-Control-Expose-Headers": lambda: joined(S(["x-foo", "*", "etag"])),
    "Allow": lambda: joined(S(["GET", "POST", "get", "OPTIONS", "PUT"])),
    "Expect": lambda: joined(S(["100-continue", "100-Continue", "foo", "a=b", "100-continue;x"])),
    "Upgrade": lambda: joined(S(["websocket", "h2c", "HTTP/2.0", "a/b/c"])), "Connection": lambda: joined(S(["close", "keep-alive", "upgrade", "TE", "Foo", "Cache-Control"])),
    "Cache-Status": lambda: sf_list(), "Proxy-Status": lambda: sf_list(), "CDN-Cache-Control": lambda: sf_dict(("max-age", "no-store", "private", "s-maxage", "public", "x")),
    "Cache-Groups": lambda: sf_list(), "Cache-Group-Invalidation": lambda: sf_list(), "Accept-CH": lambda: joined(st.one_of(S(["DPR", "Width", "sec-ch-ua", "Sec-CH-UA-Mobile", "Viewport-Width"]), sf_item())),
    "Accept-Query": lambda: joined(st.one_of(S(["application/json", '"text/html"', "text/*;q=0.5", '"a b"', "x"]), sf_item())),
    "Reporting-Endpoints": lambda: joined(kv(S(["endpoint", "csp", "g", "default"]), st.one_of(sf_string(S(URIS)), sf_item()))),
    "Speculation-Rules": lambda: joined(st.one_of(sf_string(S(URIS)), sf_item())),
    "Use-As-Dictionary": lambda: joined(st.one_of(kv(S(["match"]), S(['"/a*"', "1", '"/(a)"', '"http://["', '"https://other/x"', '"*"'])), kv(S(["match-dest"]), S(['("document" "script")', '("bogus")', "(1)", '"x"'])),
                                                   kv(S(["id"]), S(['"x"', "1", '"' + "x" * 1025 + '"'])), kv(S(["type"]), S(["raw", "bogus", '"raw"'])), S(["ttl=10", "foo"]))),
    "Available-Dictionary": lambda: S([":pZGm1Av0IEBKARczz7exkNYsZb8LzaMrV7J32a2fFG4=:", ":aGk=:", '"x"', "::", ":pZGm1Av0IEBKARczz7exkNYsZb8LzaMrV7J32a2fFG4=:;a"]),
    "Server-Timing": lambda: joined(st.tuples(S(["db", "cache", "a b", ""]), st.lists(kv(recase(S(["dur", "desc", "foo"])), S(["53", "x", '"y z"', "1e5", "-1", "", "nan"])), max_size=3)).map(lambda t: ";".join([t[0]] + t[1]))),
    "Alt-Svc": lambda: joined(st.one_of(S(["clear"]), st.tuples(S(['h2=":443"', 'h3="a.example:443"', "h2=:443", 'h2="x"', "foo"]), st.lists(kv(S(["ma", "persist", "foo"]), S(["1", "0", "x", '"1"'])), max_size=2)).map(lambda t: "; ".join([t[0]] + t[1])))),
    "Clear-Site-Data": lambda: joined(S(['"cache"', '"cookies"', '"*"', '"executionContexts"', "cache", '"bogus"', '""', '"storage"', '"Cache"'])),
    "X-Frame-Options": lambda: S(["DENY", "SAMEORIGIN", "deny", "ALLOW-FROM https://a/", "bogus", "DENY, SAMEORIGIN"]),
    "X-Content-Type-Options": lambda: joined(S(["nosniff", "NoSniff", "bogus"])),
    "Accept-Ranges": lambda: joined(S(["bytes", "none", "Bytes", "items", "foo"])),
    "Referer": lambda: S(URIS), "Location": lambda: S(URIS), "Content-Location": lambda: S(URIS), "Host": lambda: S(["example.com", "example.com:80", "a b", "[::1]:8080", "", "a:b:c"]),
    "Cookie": lambda: joined(st.one_of(kv(S(["a", "b", "", "a b"]), S(["1", '"x"', "", "x,y"])), S(["", "x"])), "; "),
    "Via": lambda: joined(S(["1.1 foo", "HTTP/2 bar:80 (comment)", "1.1", "x y <b>z</b>", "1.1 `a`", "1.0 fred, 1.1 p.example.net"])),
    "Warning": lambda: joined(S(['110 - "Response is stale"', '299 a.example "x" "Mon, 04 Jul 2011 09:08:06 GMT"', "110", "x"])),
    "Server": lambda: S(["Apache/2.4.1 (Unix)", "nginx", "a b c", "Apache, nginx", "Microsoft-IIS/8.5", "(x)"]), "User-Agent": lambda: S(["curl/7.1", "Mozilla/5.0 (X) a/b", "", "a(b"]),
    "WWW-Authenticate": lambda: joined(S(['Basic realm="x"', 'Digest realm="a, b", nonce=x', "Negotiate", "Bearer", "Basic realm=<b>", "=x"])),
    "Proxy-Authenticate": lambda: joined(S(['Basic realm="x"', "Negotiate abc==", "x y z"])),
    "Authorization": lambda: S(["Basic Zm9v", 'Digest a="b", c=d', "Bearer x.y.z", "foo", "Basic a b"]), "Proxy-Authorization": lambda: S(["Basic Zm9v", "x y z"]),
    "Keep-Alive": lambda: joined(kv(S(["timeout", "max", "x"]), NUM)), "Pragma": lambda: joined(S(["no-cache", "foo", "a=b", "No-Cache"])),
    "Trailer": lambda: joined(S(["Foo", "ETag", "Content-Length", "a b"])), "From": lambda: S(["a@b.c", "x", '"A B" <a@b>']),
})
