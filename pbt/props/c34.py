"""C34: content negotiation, framing and other classic list and singleton fields."""
import re

from hypothesis import strategies as st

from pbt import lib
from pbt.core import Check, same
from pbt.lib import all_notes

RULE = "a case is a message with one such field, on one or several lines; non-trivial when a member is invalid, repeated, in another case, weighted, or has parameters"
ASSUMPTIONS = ["members are separated by commas, perhaps with empty members, and spread over lines at will; a parameter always has a value, and a weight is not quoted", "weights are only validated in Accept and Accept-Language; elsewhere their text is kept",
               "two origins are the same when scheme, host (in any case) and port (or the scheme's default) are; a request target without authority has no known origin", "numbers have at most 4000 digits"]
S = st.sampled_from


def cased(draw, text):
    return "".join(c.upper() if draw(st.booleans()) else c for c in text) if draw(st.integers(0, 2)) == 2 else text


def spread(draw, members):
    """One or more field lines with these members."""
    lines = []
    for i, m in enumerate(members):
        if i == 0 or draw(st.integers(0, 4)) == 4:
            lines.append(m)
        else:
            lines[-1] += draw(S([",", ", ", ", ", " ,", "\t,  ", ",,", ", ,"])) + m
    return [draw(S(["", "", "", " ", ","])) + x + draw(S(["", "", "", ",", " "])) for x in lines]


def header(name, lines):
    return [(name.encode(), x.encode("latin-1")) for x in lines]


def request(name, lines, **kw):
    return lib.lint(lib.req(headers=header(name, lines) + [(b"User-Agent", b"x")], **kw))


def got(linter, field, *classes):
    """(class name, variable values) of this field's notes"""
    return [n for n in all_notes(linter.notes) if type(n).__name__ in classes and n.vars.get("field_name", field) == field]


GOODQ = S(["0", "1", "0.5", "0.1", "0.123", "1.0", "1.00", "1.000", "0.", "1.", "0.999", "0.001", "0.000"])
BADQ = S(["1.1", "2", "-1", ".5", "0.1234", "1.001", "1.0000", "abc", "1e0", "+1", "0x1", "00", "01", "0.5.", "0.a", "10", "-0", "nan", "inf", "1.000000000000000000001", "0-1", "1.9", "0.00001"])
RANGES = S(["text/html", "text/*", "*/*", "image/png", "application/xhtml+xml", "a/b", "application/vnd.x.y-z", "x-a/x.b"])
BADRANGES = S(["text", "*/html", "text/", "/html", "*", "html/text/x"])
TAGS = S(["en", "en-us", "de-1996", "zh-hant-tw", "*", "x-y", "abcdefgh-12345678"])
PNAMES = S(["level", "charset", "a", "x-y", "profile"])
PVALS = st.one_of(S(["1", "utf-8", "tok", "A"]).map(lambda v: (v, v)), S([("a b", '"a b"'), ("", '""'), ("a;q=0", '"a;q=0"'), ('a"b', '"a\\"b"'), ("x, y", '"x, y"'), ("A", '"A"')]))
EQ = S([";", "; ", " ;", " ; ", ";\t"])


@st.composite
def weighted(draw):
    field = draw(S(["Accept", "Accept", "Accept-Language", "Accept-Language", "Accept-Encoding", "TE"]))
    members, texts = [], []
    for _ in range(draw(st.integers(1, 4))):
        bad = False
        if field == "Accept":
            bad = draw(st.integers(0, 5)) == 5
            name = draw(BADRANGES if bad else RANGES)
        elif field == "Accept-Language":
            name = draw(TAGS)
        else:
            name = draw(S(["gzip", "br", "*", "identity", "trailers", "deflate", "x-foo", "zstd"]))
        text = cased(draw, name)
        params = {}
        items = []
        for p in draw(st.lists(PNAMES, unique=True, max_size=2)) if draw(st.integers(0, 2)) == 0 else []:
            value, written = draw(PVALS)
            params[p] = value
            items.append((cased(draw, p), written))
        q = None
        if draw(st.integers(0, 2)):
            q = draw(st.one_of(GOODQ, GOODQ, BADQ))
            items.insert(draw(st.integers(0, len(items))), (draw(S(["q", "q", "Q"])), q))
        for k, v in items:
            text += draw(EQ) + k + "=" + v
        members.append((name, params, q, bad))
        texts.append(text)
    return {"field": field, "members": members, "lines": spread(draw, texts)}


def valid_q(q):
    return re.fullmatch(r"0(\.[0-9]{0,3})?|1(\.0{0,3})?", q) is not None


def check_weighted(c, rec):
    field = c["field"]
    linter = request(field, c["lines"])
    value = linter.headers.parsed.get(field.lower())
    rec.label(field)
    rec.nt(len(c["members"]) > 1 or any(m[2] or m[1] for m in c["members"]))
    if field in ("Accept-Encoding", "TE"):
        want = []
        for name, params, q, _ in c["members"]:
            params = dict(params)
            if q is not None:
                params["q"] = q
            want.append((name, params))
        same([(a, dict(b)) for a, b in value], want, f"{field} must be its members with their parameters", lines=c["lines"])
        return
    weights = [None if q is None or not valid_q(q) else float(q) for _, _, q, _ in c["members"]]
    badq = [name for name, _, q, _ in c["members"] if q is not None and not valid_q(q)]
    if badq:
        rec.label("bad weight")
    if field == "Accept":
        same([(v.media_type, dict(v.parameters), v.q) for v in value], [(m[0], m[1], w) for m, w in zip(c["members"], weights)], "Accept must be its media ranges with parameters and weight", lines=c["lines"])
        same([n.vars["media_type"] for n in got(linter, field, "BAD_Q_VALUE")], badq, "each weight that isn't a qvalue must be reported", lines=c["lines"])
        same([n.vars["value"] for n in got(linter, field, "ACCEPT_BAD_SYNTAX")], [m[0] for m in c["members"] if m[3]], "each member that isn't a media range must be reported", lines=c["lines"])
    else:
        same([(v.language, v.q) for v in value], [(m[0], w) for m, w in zip(c["members"], weights)], "Accept-Language must be its language ranges with their weight", lines=c["lines"])
        same([n.vars["language"] for n in got(linter, field, "BAD_Q_VALUE")], badq, "each weight that isn't a qvalue must be reported", lines=c["lines"])
        same(len(got(linter, field, "ACCEPT_LANGUAGE_BAD_SYNTAX")), sum(1 for m in c["members"] if m[1]), "each member with other parameters must be reported", lines=c["lines"])


# --------------------------------------------------------------------------- plain lists
VARY = ["accept", "accept-encoding", "user-agent", "host", "negotiate", "*", "cookie", "origin", "x-a", "user-agen", "hosts", "accept-language"]
LISTS = {
    "Vary": (VARY, "response"), "Content-Language": (["en", "en-us", "fr", "de", "zh-hant", "x-y", "e"], "any"), "Allow": (["GET", "HEAD", "POST", "get", "FOO", "x"], "response"),
    "Expect": (["100-continue", "100-Continue", "100-CONTINUE", "foo", "bar", "200-ok", "100-continues"], "request"), "Connection": (["close", "keep-alive", "upgrade", "Close", "x-foo"], "any"),
    "Upgrade": (["websocket", "HTTP/2.0", "h2c", "TLS/1.0", "WebSocket"], "any"), "Trailer": (["expires", "ETag", "x-foo", "Content-MD5"], "any"), "Pragma": (["no-cache", "No-Cache", "foo", "no-cach", "bar=1"], "request"),
}


@st.composite
def lists(draw):
    field = draw(S(sorted(LISTS) + ["Vary", "Vary", "Content-Language", "Expect"]))
    pool, kind = LISTS[field]
    members = draw(st.lists(S(pool), min_size=1, max_size=6))
    if draw(st.integers(0, 9)) == 0:  # only spaces and tabs are white space around a member
        i = draw(st.integers(0, len(members) - 1))
        members[i] = draw(S([members[i] + "{}", "{}" + members[i]])).format(draw(S(["\xa0", "\x0b", "\x85", "\x1f", "\x0c"])))
    if field in ("Vary", "Content-Language"):
        texts = [cased(draw, m) for m in members]
    else:
        texts = members
    return {"field": field, "kind": draw(S(["request", "response"])) if kind == "any" else kind, "members": texts, "lines": spread(draw, texts), "version": draw(S([b"HTTP/1.1", b"HTTP/1.1", b"HTTP/1.0", b"1.1", b"1.0", b"HTTP/2"]))}


def check_lists(c, rec):
    field = c["field"]
    rec.label(field)
    if c["kind"] == "request":
        linter = lib.lint(lib.msg("request", header(field, c["lines"]) + [(b"User-Agent", b"x")], top=(b"GET", b"https://example.com/", c["version"])))
    else:
        linter = lib.lint(lib.msg("response", header(field, c["lines"]), top=(c["version"], b"200", b"OK")))
    value = linter.headers.parsed.get(field.lower())
    low = [m.lower() for m in c["members"]]
    dup = list(dict.fromkeys(m for i, m in enumerate(low) if m in low[:i]))
    rec.nt(len(low) > 1)
    want = low if field in ("Content-Language", "Pragma") else list(dict.fromkeys(low)) if field == "Vary" else c["members"]
    same(value, want, f"{field} must be its members", lines=c["lines"])
    if field == "Vary":
        names = set(low)
        expect = [n for n, cond in (("VARY_ASTERISK", "*" in names), ("VARY_COMPLEX", len(names) > 3), ("VARY_DUPLICATE", bool(dup)), ("VARY_HOST", "host" in names), ("VARY_NEGOTIATE", "negotiate" in names), ("VARY_USER_AGENT", "user-agent" in names)) if cond]
        found = got(linter, field, "VARY_ASTERISK", "VARY_COMPLEX", "VARY_DUPLICATE", "VARY_HOST", "VARY_NEGOTIATE", "VARY_USER_AGENT")
        same(sorted(type(n).__name__ for n in found), expect, "what is said about Vary", lines=c["lines"])
        for n in found:
            if type(n).__name__ == "VARY_COMPLEX":
                same(n.vars["vary_count"], str(len(names)), "the number of dimensions", lines=c["lines"])
    elif field == "Content-Language":
        same([n.vars["lang"] for n in got(linter, field, "CONTENT_LANGUAGE_DUP")], sorted(dup, key=lambda m: [i for i, x in enumerate(low) if x == m][1]), "each language that is repeated must be reported once", lines=c["lines"])
    elif field == "Expect":
        same(len(got(linter, field, "EXPECT_HTTP_1_0")), int(c["version"] in (b"HTTP/1.0", b"1.0")), "EXPECT_HTTP_1_0 must be given for HTTP/1.0 requests", version=c["version"])
        unknown = [m for m in c["members"] if m.lower() != "100-continue"]
        same([n.vars["expectation"] for n in got(linter, field, "EXPECT_UNKNOWN")], [", ".join(unknown)] if unknown else [], "unknown expectations must be reported, together", lines=c["lines"])
    elif field == "Pragma":
        same(len(got(linter, field, "PRAGMA_OTHER")), int(any(m != "no-cache" for m in low)), "PRAGMA_OTHER must be given when there's another directive than no-cache", lines=c["lines"])


@st.composite
def transfer(draw):
    members, texts = [], []
    for _ in range(draw(st.integers(1, 4))):
        name = draw(S(["chunked", "gzip", "identity", "x-a", "deflate"]))
        params = {}
        text = cased(draw, name)
        for p in draw(st.lists(PNAMES, unique=True, max_size=2)) if draw(st.booleans()) else []:
            value, written = draw(PVALS)
            params[p] = value
            text += draw(EQ) + cased(draw, p) + "=" + written
        members.append((name, params))
        texts.append(text)
    return {"members": members, "lines": spread(draw, texts), "kind": draw(S(["request", "response"]))}


def check_transfer(c, rec):
    linter = request("Transfer-Encoding", c["lines"]) if c["kind"] == "request" else lib.lint(lib.resp(header("Transfer-Encoding", c["lines"])))
    rec.nt(any(m[1] for m in c["members"]) or len(c["members"]) > 1)
    same([(a, dict(b)) for a, b in linter.headers.parsed.get("transfer-encoding")], c["members"], "Transfer-Encoding must be its codings with their parameters", lines=c["lines"])
    same(len(got(linter, "Transfer-Encoding", "TRANSFER_CODING_PARAM")), sum(1 for m in c["members"] if m[1]), "each coding with parameters must be reported", lines=c["lines"])


# --------------------------------------------------------------------------- entity tags
TAG = st.one_of(st.text(S("abc09!#$%&'()*+,-./:;<=>?@[]^_`{|}~\\"), max_size=8), st.text(S('a\\,;=W/' + "\xe9"), max_size=5), S(["", "\\", "\\\\", "a\\", ",", "W/", "*", "a,b"]))


@st.composite
def etags(draw):
    tags = [(draw(st.booleans()), draw(TAG)) for _ in range(draw(st.integers(1, 4)))]
    texts = [("W/" if w else "") + f'"{t}"' for w, t in tags]
    return {"tags": tags, "texts": texts, "lines": spread(draw, texts), "field": draw(S(["If-None-Match", "If-Match"]))}


def check_etags(c, rec):
    rec.nt(any("\\" in t or "," in t for _, t in c["tags"]))
    first = c["texts"][0]
    for linter in (lib.lint(lib.resp([(b"ETag", first.encode("latin-1"))])),):
        same(linter.headers.parsed.get("etag"), c["tags"][0], "ETag must be its weakness and its opaque tag", field=first)
        same([n for n in lib.names(linter) if n.startswith("BAD_SYNTAX")], [], "a valid entity tag is reported", field=first)
    linter = request(c["field"], c["lines"])
    same(linter.headers.parsed.get(c["field"].lower()), c["texts"], f"{c['field']} must be its entity tags", lines=c["lines"])
    same([n for n in lib.names(linter) if n.startswith("BAD_SYNTAX")], [], "valid entity tags are reported", lines=c["lines"])


# --------------------------------------------------------------------------- origins
ORIGINS = ["https://a.example", "http://a.example", "https://A.Example", "https://a.example:443", "http://a.example:80", "https://a.example:8443", "https://b.example", "wss://a.example", "ws://a.example", "https://[::1]", "https://[::1]:443", "HTTPS://a.example",
           "https://sub.a.example", "http://a.example:443", "https://a.example:80", "https://u@a.example", "https://a.example:", "HTTP://a.example", "ftp://a.example"]
PORTS = {"http": "80", "ws": "80", "https": "443", "wss": "443"}


def origin(o):
    scheme, _, rest = o.partition("://")
    scheme = scheme.lower()
    host = rest.rpartition("@")[2].lower()
    m = re.fullmatch(r"(\[.*\]|[^:]*)(?::([0-9]*))?", host)
    return scheme, m.group(1), m.group(2) or PORTS.get(scheme)


@st.composite
def referers(draw):
    if draw(st.integers(0, 3)) == 0:  # the same scheme, with and without a port
        scheme = draw(S(sorted(PORTS) + ["https", "wss"]))
        one, two = (f"{scheme}://a.example" + draw(S(["", ":80", ":443", ":8443", ":"])) for _ in "12")
        return {"ref": one, "ref_path": "/", "target": two, "path": "/"}
    return {"ref": draw(S(ORIGINS + ["", "/x", "about:blank"])), "ref_path": draw(S(["", "/", "/a/b?c", "/https://a.example/"])), "target": draw(st.one_of(S(ORIGINS), S(ORIGINS), S(["", "*"]))), "path": draw(S(["/", "", "/x?y=https://b.example/"]))}


def check_referer(c, rec):
    ref = c["ref"] + (c["ref_path"] if c["ref"] != "about:blank" else "")
    target = c["target"] + (c["path"] if c["target"] != "*" else "")
    if not ref or not target:
        return
    linter = request("Referer", [ref], uri=target.encode())
    found = sorted(type(n).__name__ for n in all_notes(linter.notes) if type(n).__name__.startswith("REFERER_"))
    want = []
    if "://" in c["ref"]:
        r = origin(c["ref"])
        if r[0] in ("https", "wss") and "://" in c["target"]:
            t = origin(c["target"])
            rec.nt(True)
            rec.label("same origin" if r == t else "other origin")
            if r != t:
                want.append("REFERER_SECURE_TO_DIFFERENT_ORIGIN")
            if t[0] in ("http", "ws"):
                want.append("REFERER_SECURE_TO_INSECURE")
    same(found, sorted(want), "what is said about where the Referer goes", referer=ref, target=target)


# --------------------------------------------------------------------------- singletons
@st.composite
def singles(draw):
    what = draw(S(["Content-Length", "Content-Length", "Max-Forwards", "Location", "Location", "Server", "Keep-Alive"]))
    c = {"what": what}
    if what == "Content-Length":
        c["kind"] = draw(S(["request", "response"]))
        c["value"] = draw(st.one_of(st.integers(0, 20).map(str), S([2 ** 63 - 1, 2 ** 63, 2 ** 63 - 2, 2 ** 64, 10 ** 18, 10 ** 19, 10 ** 3000, 9223372036854775806]).map(str), S(["007", "0" * 30 + "5"]), S(["", "-1", "+1", "1.0", "1, 1", "1,1", "0x1", "1e3", "1_0", "\xb2", "a", "1;", "1 1", "\xb9\xb2"])))
    elif what == "Max-Forwards":
        c["method"] = draw(S(["TRACE", "OPTIONS", "GET", "POST", "trace", "HEAD", "options", "CONNECT", "PUT", "DELETE", "PATCH", "QUERY", "Trace", "TRACES", "FOO"]))
        c["value"] = str(draw(st.integers(0, 99)))
    elif what == "Location":
        c["status"] = draw(S([200, 201, 202, 204, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 400, 404, 500]))
        c["value"] = draw(S(["https://a.example/", "/x", "x", "//a.example/x", "?q", "#f", "https://a.example/#f", "HTTP://a/", "a:b", "urn:x:y", "../x", "", "x:", "./a:b", "1:b", "https://[::1]/", "mailto:a@b"]))
        c["base"] = draw(S([None, "https://base.example/a/b?c"]))
    elif what == "Server":
        c["value"] = draw(st.one_of(st.integers(1, 140).map(lambda n: "a" * n), S([63, 64, 65, 66]).map(lambda n: "a" * (n - 5) + " (b,c"[:5]), S(["a, b", "a (b, c)", "x/1 (y)"])))
    else:
        items = draw(st.lists(st.tuples(S(["timeout", "max", "Timeout", "x", "Foo"]), S([("5", "5"), ("a b", '"a b"'), ("100", "100"), (None, None)])), min_size=1, max_size=3))
        c["items"] = [(k, v[0]) for k, v in items]
        c["lines"] = spread(draw, [k if v[1] is None else f"{k}={v[1]}" for k, v in items])
    return c


JOIN = {"/x": "https://base.example/x", "x": "https://base.example/a/x", "//a.example/x": "https://a.example/x", "?q": "https://base.example/a/b?q", "#f": "https://base.example/a/b?c#f", "../x": "https://base.example/x", "": "https://base.example/a/b?c", "./a:b": "https://base.example/a/a:b"}


def check_singles(c, rec):
    what = c["what"]
    rec.label(what)
    if what == "Content-Length":
        v = c["value"]
        linter = request(what, [v], uri=b"https://example.com/") if c["kind"] == "request" else lib.lint(lib.resp(header(what, [v])))
        ok = re.fullmatch("[0-9]+", v) is not None
        rec.nt(not ok or len(v) > 18)
        same(linter.headers.parsed.get("content-length"), int(v) if ok else None, "Content-Length must be its number", field=v[:60])
        want = ["CL_BAD_SYNTAX"] if not ok else ["CL_TOO_LARGE"] if int(v) > 2 ** 63 - 1 else []
        same([type(n).__name__ for n in all_notes(linter.notes) if type(n).__name__ in ("CL_BAD_SYNTAX", "CL_TOO_LARGE")], want, "what is said about Content-Length", field=v[:60])
    elif what == "Max-Forwards":
        linter = request(what, [c["value"]], method=c["method"].encode())
        rec.nt(c["method"] not in ("GET", "POST"))
        same(len(got(linter, what, "MAX_FORWARDS_IGNORED")), int(c["method"] not in ("TRACE", "OPTIONS")), "MAX_FORWARDS_IGNORED must be given unless the method is TRACE or OPTIONS", method=c["method"])
    elif what == "Location":
        m = lib.resp(header(what, [c["value"]]), status=c["status"])
        if c["base"]:
            m["base"] = c["base"]
        linter = lib.lint(m)
        rec.nt(True)
        same(len(got(linter, what, "LOCATION_UNDEFINED")), int(c["status"] not in (201, 300, 301, 302, 303, 305, 307, 308)), "LOCATION_UNDEFINED must be given for statuses that don't define Location", status=c["status"])
        absolute = re.match("[A-Za-z][A-Za-z0-9+.-]*:", c["value"]) is not None
        notes = got(linter, what, "LOCATION_NOT_ABSOLUTE")
        same(len(notes), int(not absolute), "LOCATION_NOT_ABSOLUTE must be given for relative references", field=c["value"])
        if notes and c["base"] and c["value"] in JOIN:
            same(notes[0].vars["full_uri"], JOIN[c["value"]], "the absolute URI that is suggested", field=c["value"])
    elif what == "Server":
        linter = lib.lint(lib.resp(header(what, [c["value"]])))
        rec.nt(60 < len(c["value"]) < 70 or "," in c["value"])
        same(linter.headers.parsed.get("server"), [c["value"]], "Server isn't a list")
        same(len(got(linter, what, "SERVER_TOO_LONG")), int(len(c["value"]) > 64), "SERVER_TOO_LONG must be given above 64 characters", length=len(c["value"]))
    else:
        linter = lib.lint(lib.resp(header(what, c["lines"])))
        rec.nt(len(c["items"]) > 1)
        same(linter.headers.parsed.get("keep-alive"), [(k.lower(), v) for k, v in c["items"]], "Keep-Alive must be its parameters", lines=c["lines"])


CHECKS = [
    Check("weighted", weighted, check_weighted, 1400, 30000, "Accept, Accept-Language, Accept-Encoding and TE built from their members"),
    Check("lists", lists, check_lists, 1400, 30000, "lists of tokens and what is said about them"),
    Check("Transfer-Encoding", transfer, check_transfer, 500, 8000, "codings and their parameters"),
    Check("entity tags", etags, check_etags, 700, 12000, "ETag, If-Match and If-None-Match built from their tags"),
    Check("Referer", referers, check_referer, 700, 6000, "pairs of origins"),
    Check("singletons", singles, check_singles, 900, 12000, "Content-Length, Max-Forwards, Location, Server, Keep-Alive"),
]
