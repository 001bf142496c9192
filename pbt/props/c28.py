"""C28: findings that relate fields to each other, or to the other message."""
import collections

from hypothesis import strategies as st

from pbt import gen, lib
from pbt.core import Check, Skip, require, same

RULE = "a case is a message (and perhaps its request) whose fields refer to each other; non-trivial when some reference dangles or some pair of fields conflicts"
ASSUMPTIONS = ["reporting endpoint names are Structured Field keys, compared exactly; Vary members, codings and field names case-insensitively",
               "an endpoint is not secure when, resolved against the base URI, its scheme is known and is neither https nor wss; of repeated names the last counts",
               "an empty report-to, a report-to parameter that isn't a String or Token, codings refused with q=0 and Vary: * aren't judged", "what makes a response storable is C13's; here it is storable by construction or not"]
S = st.sampled_from
NAMES = ["a", "b", "main", "csp-endpoint", "x_1", "default", "*star", "a.b"]
REFS = st.one_of(S(NAMES), S(NAMES[:4]), S(["Main", "A", "missing", "mai", "main2", "b.", "https://e.example/"]))


def cased(draw, text):
    return "".join(c.upper() if draw(st.integers(0, 3)) == 3 else c for c in text) if draw(st.integers(0, 2)) == 2 else text


def field_case(draw, name):
    return draw(S([name, name, name, name.lower(), name.upper()])).encode()


def mixed(draw, groups, filler=True):
    """Header lines: the groups' lines in a random interleaving that keeps each group's order."""
    order = draw(st.permutations([i for i, g in enumerate(groups) for _ in g]))
    its = [iter(g) for g in groups]
    return [next(its[i]) for i in order]


# ------------------------------------------------------------------ reporting endpoints
URLS = ["https://e.example/r", "HTTPS://e.example/", "wss://e.example/", "http://e.example/r", "HTTP://e.example", "ws://e.example/", "ftp://e.example/", "/r", "r?x#y", "//e.example/r", "", "mailto:a@b", "https:/r", "data:,x", "http:r"]
BASES = [None, "https://base.example/a/b", "http://base.example/", "HTTP://base.example/x"]


def scheme_of(url, base):
    head, colon, _ = url.partition(":")
    if colon and head and head[0].isalpha() and all(c.isascii() and (c.isalnum() or c in "+-.") for c in head):
        return head.lower()
    return base.partition(":")[0].lower() if base else ""


def endpoint_item(draw):
    """(text of an item, its URL or None when it isn't a string)"""
    if draw(st.integers(0, 5)) == 5:
        return draw(S(["tok", "1", "1.5", "?1", ":YQ==:", '("https://e.example/")', "@1", '%"https://e.example/"'])), None
    url = draw(S(URLS + URLS[:2] * 3))
    return f'"{url}"', url


@st.composite
def reporting(draw):
    base = draw(S(BASES))
    defined = {}
    lines = []
    members = []
    for _ in range(draw(st.integers(0, 4))):
        name = draw(S(NAMES))
        text, url = endpoint_item(draw)
        defined[name] = url
        members.append(name + "=" + text + draw(S(["", "", ";p", ';p="http://x/"'])))
    while members:
        n = draw(st.integers(1, len(members)))
        lines.append((field_case(draw, "Reporting-Endpoints"), ", ".join(members[:n]).encode()))
        members = members[n:]
    groups, want = [lines], []
    if draw(st.integers(0, 9)) == 9:  # nothing that's readable
        at = draw(st.integers(0, len(lines)))
        lines.insert(at, (field_case(draw, "Reporting-Endpoints"), draw(S([b'"a"', b"a=", b"a=(1", b"a=1 b", b"A=1", b"\xff"]))))
        defined = {}
    for name, url in defined.items():
        if url is None:
            want.append(("BAD_REPORTING_ENDPOINT_SYNTAX", "reporting-endpoints", name))
        elif scheme_of(url, base) not in ("", "https", "wss"):
            want.append(("ENDPOINT_NOT_SECURE", "reporting-endpoints", name))
    clean_names = {n for n, url in defined.items() if url is not None and scheme_of(url, base) in ("", "https", "wss")}
    refs = 0
    for ro in ("", "-Report-Only"):
        if draw(st.booleans()):
            policies = []
            for _ in range(draw(st.integers(1, 3))):
                directives = [draw(S(["default-src 'self'", "img-src *", "object-src 'none'", "upgrade-insecure-requests"]))] if draw(st.booleans()) else []
                seen = False
                for _ in range(draw(S([0, 1, 1, 1, 2]))):
                    ref = draw(REFS)
                    directives.insert(draw(st.integers(0, len(directives))) if not seen else len(directives), cased(draw, "report-to") + draw(S([" ", "  ", "\t"])) + ref)
                    if not seen:
                        refs += 1
                        if ref not in defined:
                            want.append(("CSP_REPORT_TO_MISSING", "content-security-policy" + ro.lower(), ref))
                    seen = True
                if directives:
                    policies.append(draw(S(["; ", ";", " ; "])).join(directives) + draw(S(["", "", ";"])))
            lines = []
            while policies:
                n = draw(st.integers(1, len(policies)))
                lines.append((field_case(draw, "Content-Security-Policy" + ro), ", ".join(policies[:n]).encode()))
                policies = policies[n:]
            groups.append(lines)
        for name, cls, values in (("Cross-Origin-Embedder-Policy", "COEP", ["require-corp", "credentialless", "unsafe-none", "other"]),
                                  ("Cross-Origin-Opener-Policy", "COOP", ["same-origin", "same-origin-allow-popups", "unsafe-none", "other"])):
            if draw(st.integers(0, 2)) == 0:
                text = draw(S(values))
                if draw(st.integers(0, 4)):
                    ref = draw(REFS)
                    refs += 1
                    text += draw(S([";", "; "])) + "report-to=" + (ref if draw(st.integers(0, 3)) == 3 and ref[0].isalpha() else f'"{ref}"')
                    if ref not in defined:
                        want.append((cls + "_REPORT_TO_MISSING", name.lower() + ro.lower(), ref))
                groups.append([(field_case(draw, name + ro), text.encode())])
    present = {g[0][0].decode().lower() for g in groups if g}
    for name, cls in (("cross-origin-embedder-policy", "COEP"), ("cross-origin-opener-policy", "COOP")):
        if name in present and name + "-report-only" in present:
            want.append((cls + "_REPORT_ONLY_DUPLICATE", name + "-report-only", None))
    if draw(st.booleans()):
        policies, configured = [], []
        for _ in range(draw(st.integers(1, 3))):
            if draw(st.integers(0, 7)) == 0:
                policies.append(draw(S(["1", "[]", '"x"', "null", "true"])))
                continue
            ref = draw(REFS)
            refs += 1
            clean = draw(st.integers(0, 3)) < 3
            extra = draw(S(["", ', "include_subdomains": true', ', "success_fraction": 0', ', "failure_fraction": 1'])) if clean else draw(S([', "include_subdomains": 1', ', "success_fraction": 2', ', "failure_fraction": "0"', ', "success_fraction": -0.1']))
            age = '"max_age": 10' if clean or draw(st.booleans()) else draw(S(['"max_age": "10"', '"x": 1', '"max_age": true']))
            policies.append(f'{{"report_to": "{ref}", {age}{extra}}}')
            if ref not in defined:
                want.append(("NEL_REPORT_TO_MISSING", "nel", ref))
            elif ref in clean_names and clean:
                configured.append(ref)
        lines = []
        while policies:
            n = draw(st.integers(1, len(policies)))
            lines.append((field_case(draw, "NEL"), ", ".join(policies[:n]).encode()))
            policies = policies[n:]
        groups.append(lines)
        if configured:
            want.append(("NEL_CONFIGURED", "nel", ", ".join(f"`{c}`" for c in configured)))
    m = lib.resp(mixed(draw, groups))
    m["base"] = base
    return m, sorted(want, key=repr), refs


KEY = {"BAD_REPORTING_ENDPOINT_SYNTAX": "name", "ENDPOINT_NOT_SECURE": "name", "CSP_REPORT_TO_MISSING": "endpoint", "COEP_REPORT_TO_MISSING": "endpoint", "COOP_REPORT_TO_MISSING": "endpoint", "NEL_REPORT_TO_MISSING": "value", "NEL_CONFIGURED": "endpoints",
       "COEP_REPORT_ONLY_DUPLICATE": None, "COOP_REPORT_ONLY_DUPLICATE": None, "ACCEPT_CH_BAD_TYPE": None, "ACCEPT_CH_IN_PLAIN_HTTP": None, "ACCEPT_CH_MISSING_VARY": "missing_fields", "DICTIONARY_COMPRESSED_MISSING_VARY": None,
       "AVAILABLE_DICTIONARY_MISSING_AE": None, "AVAILABLE_DICTIONARY_BAD_TYPE": None, "CL_AND_TE_PRESENT": None, "DATE_CLOCKLESS": None, "DATE_CLOCKLESS_BAD_HDR": None, "ENCODING_UNWANTED": "coding", "TRANSFER_CODING_UNWANTED": "coding",
       "CACHE_GROUP_INVALIDATION_IGNORED": "method", "TRANSFER_CODING_IDENTITY": None}


ENDPOINTS = {c for c in KEY if "REPORT" in c or "ENDPOINT" in c or "NEL" in c}


def found(linter, classes):
    out = []
    for top in linter.notes:
        for n in lib.all_notes([top]):
            cls = type(n).__name__
            if cls in classes:
                subject = top.subject[6:] if top.subject.startswith("field-") else top.subject
                subject = "content-encoding" if cls == "ENCODING_UNWANTED" else subject  # its subject is a line: C20
                out.append((cls, subject, str(n.vars[KEY[cls]]) if KEY[cls] else None))
    return sorted(out, key=repr)


def check(case, rec):
    m, want, refs = case
    linter = lib.lint(m)
    rec.label(*{w[0] for w in want})
    rec.nt(bool(want) or refs > 0)
    same(found(linter, ENDPOINTS), sorted([tuple(w) for w in want], key=repr), f"findings relating fields of {m['headers']!r}")
    for n in lib.all_notes(linter.notes):
        if type(n).__name__ in KEY:
            str(n.summary), str(n.detail)


# ------------------------------------------------------------------ negotiation and storability
HINTS = ["Sec-CH-UA", "DPR", "Viewport-Width", "Sec-CH-UA-Platform", "Device-Memory", "Width", "ECT"]


def lines_of(draw, name, members, sep=", "):
    out = []
    members = list(members)
    while members:
        n = draw(st.integers(1, len(members)))
        out.append((field_case(draw, name), sep.join(members[:n]).encode()))
        members = members[n:]
    return out


def storability(draw):
    """(header lines, status, request method or None, storable?)"""
    how = draw(st.integers(0, 9))
    if how == 0:
        return [(b"Cache-Control", draw(S([b"no-store", b"max-age=10, no-store", b"No-Store"])))], 200, None, False
    if how == 1:
        return [], 200, draw(S([b"PUT", b"DELETE", b"POST", b"PATCH"])), False
    if how == 2:
        return [], draw(S([500, 302, 400, 403])), None, False
    if how == 3:
        return [(b"Cache-Control", draw(S([b"private", b"private, max-age=10", b"PRIVATE"])))], draw(S([200, 500, 302])), draw(S([None, b"GET", b"HEAD"])), True
    if how == 4:
        return [(b"Cache-Control", draw(S([b"max-age=0", b"public", b"max-age=60"])))], draw(S([200, 500, 302])), draw(S([None, b"GET", b"HEAD"])), True
    if how == 5:
        return [(b"Cache-Control", b"s-maxage=10")], 500, None, True
    return [], draw(S([200, 404, 410])), draw(S([None, b"GET", b"HEAD"])), True


@st.composite
def vary(draw):
    cc, status, method, storable = storability(draw)
    uri = draw(S([b"https://example.com/", b"http://example.com/", b"HTTP://example.com/", b"HTTPS://example.com/"]))
    hints = draw(st.lists(S(HINTS), max_size=4, unique=True))
    bad = draw(st.integers(0, 5)) == 5
    codings = draw(st.lists(S(["dcb", "dcz", "gzip", "br", "dcb2"]), max_size=2, unique=True))
    pool = [h.lower() for h in hints] + ["available-dictionary", "accept-encoding", "accept", "cookie", "width2", "dp"]
    varied = draw(st.lists(S(pool), max_size=5, unique=True))
    groups = [cc, lines_of(draw, "Vary", [cased(draw, v) for v in varied]), lines_of(draw, "Content-Encoding", [cased(draw, c) for c in codings])]
    want = []
    members = [h + draw(S(["", "", ";p=1"])) for h in hints]
    if bad:
        members.insert(draw(st.integers(0, len(members))), draw(S(['"DPR"', "1", "?1", "(DPR)"])))
        if draw(st.booleans()):
            members.append(draw(S(['"Width"', "2.5"])))
    if members:
        groups.append(lines_of(draw, "Accept-CH", members))
    request = None
    if method:
        request = lib.req([], method=method, uri=uri)
    if members:
        if bad:
            want.append(("ACCEPT_CH_BAD_TYPE", "accept-ch", None))
        if request and uri.lower().startswith(b"http:"):
            want.append(("ACCEPT_CH_IN_PLAIN_HTTP", "accept-ch", None))
        missing = [h for h in hints if h.lower() not in varied]
        if storable and missing and not bad:
            want.append(("ACCEPT_CH_MISSING_VARY", "accept-ch", ", ".join(missing)))
    if storable and {"dcb", "dcz"} & set(codings) and "available-dictionary" not in varied:
        want.append(("DICTIONARY_COMPRESSED_MISSING_VARY", "content-encoding", None))
    m = lib.resp(mixed(draw, groups), status=status)
    if request:
        m["related"] = request
    return m, want, bad


VARY = {"ACCEPT_CH_BAD_TYPE", "ACCEPT_CH_IN_PLAIN_HTTP", "ACCEPT_CH_MISSING_VARY", "DICTIONARY_COMPRESSED_MISSING_VARY"}


def check_vary(case, rec):
    m, want, bad = case
    linter = lib.lint(m)
    rec.label(*{w[0] for w in want}, "stored" if linter.caching.store_private or linter.caching.store_shared else "not-stored")
    rec.nt(bool(want))
    classes = VARY - {"ACCEPT_CH_MISSING_VARY"} if bad else VARY
    same(found(linter, classes), sorted([tuple(w) for w in want], key=repr), f"findings relating fields of {m['headers']!r}")


# ------------------------------------------------------------------ codings against what the request accepts
@st.composite
def codings(draw):
    """A response's codings against its request's Accept-Encoding and TE."""
    every = ["gzip", "x-gzip", "br", "deflate", "zstd", "dcb", "compress", "x-foo"]
    ae = draw(st.lists(S(every), max_size=4, unique=True))
    te = draw(st.lists(S(["gzip", "deflate", "compress", "x-foo", "trailers"]), max_size=3, unique=True))
    ce = draw(st.lists(S(every), max_size=3, unique=True))
    tr = draw(st.lists(S(["gzip", "deflate", "compress", "x-foo", "identity", "gzip"]), max_size=3))
    if tr or draw(st.booleans()):
        tr.append("chunked")
    weight = S(["", "", ";q=0.5", "; q=1.0", ";q=0.001"])
    request = lib.req(mixed(draw, [lines_of(draw, "Accept-Encoding", [cased(draw, c) + draw(weight) for c in ae]), lines_of(draw, "TE", [cased(draw, c) + ("" if c == "trailers" else draw(weight)) for c in te])]))
    cewire = [cased(draw, c) for c in ce]
    m = lib.resp(mixed(draw, [lines_of(draw, "Content-Encoding", cewire), lines_of(draw, "Transfer-Encoding", [cased(draw, c) for c in tr])]))
    m["related"] = request
    want = [("ENCODING_UNWANTED", "content-encoding", w) for c, w in zip(ce, cewire) if c not in ae]
    want += [("TRANSFER_CODING_UNWANTED", "transfer-encoding", c) for c in dict.fromkeys(tr) if c not in te and c not in ("chunked", "identity")]
    if "identity" in tr:
        want.append(("TRANSFER_CODING_IDENTITY", "transfer-encoding", None))
    return m, want, bool(ce or tr)


def check_codings(case, rec):
    m, want, any_coding = case
    linter = lib.lint(m)
    rec.label(*{w[0] for w in want})
    rec.nt(any_coding)
    same(found(linter, {"ENCODING_UNWANTED", "TRANSFER_CODING_UNWANTED", "TRANSFER_CODING_IDENTITY"}), sorted([tuple(w) for w in want], key=repr), f"codings in {m['headers']!r} for a request with {m['related']['headers']!r}")


# ------------------------------------------------------------------ other pairs
@st.composite
def pairs(draw):
    """Content-Length with Transfer-Encoding, Available-Dictionary with Accept-Encoding, date-based fields with Date, Cache-Group-Invalidation with the method."""
    kind = draw(S(["request", "response", "response"]))
    want, groups = [], []
    cl, te = draw(st.booleans()), draw(st.booleans())
    if cl:
        groups.append([(field_case(draw, "Content-Length"), draw(S([b"0", b"5", b"007"])))])
    if te:
        groups.append(lines_of(draw, "Transfer-Encoding", draw(S([["chunked"], ["gzip", "chunked"], ["Chunked"], [""], [","]]))))
    if cl and te:
        want.append(("CL_AND_TE_PRESENT", "content-length", None))
    if kind == "request":
        if draw(st.booleans()):
            text, ok = draw(S([(":AAAA:", True), (":pZGm1Av0IEBKARczz7exkNYsZb8LzaMrV7J32a2fFG4=:", True), ('"AAAA"', False), ("AAAA", False), ("1", False), ("::", True), (":AAAA:;a=1", True), ("?1", False)]))
            groups.append([(field_case(draw, "Available-Dictionary"), text.encode())])
            ae = draw(st.lists(S(["gzip", "br", "dcb", "dcz", "dcb2", "zstd", "*", "identity"]), max_size=4, unique=True))
            groups.append(lines_of(draw, "Accept-Encoding", [cased(draw, c) + draw(S(["", ";q=0.5"])) for c in ae]))
            if not ok:
                want.append(("AVAILABLE_DICTIONARY_BAD_TYPE", "available-dictionary", None))
            if not {"dcb", "dcz"} & set(ae):
                want.append(("AVAILABLE_DICTIONARY_MISSING_AE", "available-dictionary", None))
        return lib.req(mixed(draw, groups), method=draw(S([b"GET", b"POST"]))), want
    date = draw(S([b"Mon, 04 Jul 2011 09:08:06 GMT", b"Sunday, 06-Nov-94 08:49:37 GMT", b"Thu, 01 Jan 1970 00:00:00 GMT"]))
    has = {}
    for f in ("Date", "Expires", "Last-Modified"):
        has[f] = draw(st.booleans())
        if has[f]:
            groups.append([(field_case(draw, f), date)])
    if not has["Date"]:
        want.append(("DATE_CLOCKLESS", "", None))
        if has["Expires"] or has["Last-Modified"]:
            want.append(("DATE_CLOCKLESS_BAD_HDR", "expires field-last-modified", None))
    m = lib.resp([])
    if draw(st.booleans()):
        method = draw(S([b"GET", b"HEAD", b"OPTIONS", b"TRACE", b"POST", b"PUT", b"DELETE", b"get", b"QUERY2", b"PATCH"]))
        m["related"] = lib.req([], method=method)
        if draw(st.booleans()):
            groups.append(lines_of(draw, "Cache-Group-Invalidation", ['"a"', '"b";p']))
            if method in (b"GET", b"HEAD", b"OPTIONS", b"TRACE"):
                want.append(("CACHE_GROUP_INVALIDATION_IGNORED", "cache-group-invalidation", method.decode()))
    m["headers"] = mixed(draw, groups)
    return m, want


PAIRS = {"CL_AND_TE_PRESENT", "AVAILABLE_DICTIONARY_BAD_TYPE", "AVAILABLE_DICTIONARY_MISSING_AE", "DATE_CLOCKLESS", "DATE_CLOCKLESS_BAD_HDR", "CACHE_GROUP_INVALIDATION_IGNORED"}


def check_pairs(case, rec):
    m, want = case
    linter = lib.lint(m)
    rec.label(*{w[0] for w in want})
    rec.nt(bool(want))
    same(found(linter, PAIRS), sorted([tuple(w) for w in want], key=repr), f"findings relating fields of {m['headers']!r}")


CHECKS = [
    Check("reporting endpoints", reporting, check, n=2000),
    Check("vary", vary, check_vary, n=1600),
    Check("codings", codings, check_codings, n=1200),
    Check("pairs", pairs, check_pairs, n=1600),
]
