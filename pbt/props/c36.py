"""C36: the members and parameters that Structured Fields define."""
import re

from hypothesis import strategies as st

from pbt import lib
from pbt.core import Check, same, require

RULE = "a case is a Structured Field with members and parameters of any type; non-trivial when one has another type or value than its field defines, or is unknown"
ASSUMPTIONS = ["the type of Cache-Status and Proxy-Status identifiers isn't judged, nor Proxy-Status details given as a Token, match-dest given as a String, or names of Proxy-Status errors",
               "private and no-cache take a String or nothing in CDN-Cache-Control, as in Cache-Control", "Accept-Query members are lower-cased, whatever their type; names RFC 6838 doesn't allow are C25's"]
S = st.sampled_from
TYPES = {
    "Integer": ["0", "1", "-1", "60", "504", "999999999999999", "0042"],
    "Decimal": ["1.0", "0.5", "-2.25"],
    "String": ['"a"', '""', '"GET"', '"bypass"', '"a, b;c=\\"d\\""', '"60"', '"text/html"', '"?1"'],
    "Token": ["a", "bypass", "*", "text/html", "h2", "uri-miss", "True", "GET"],
    "Bytes": [":aDI=:", "::", ":AAAA:"],
    "Boolean": ["?0", "?1", ""],
    "Date": ["@0", "@1659578233"],
    "Display": ['%"a"', '%"%c3%bc"'],
}
INNER = ["()", "(a b)", '("a" "b";p)', "(1)", '("a" b)', '("a" 1)', '("a");x=1']
FWD = ["bypass", "method", "uri-miss", "vary-miss", "miss", "request", "stale", "partial"]
CACHE = {"hit": {"Boolean"}, "fwd": {"Token"}, "fwd-status": {"Integer"}, "ttl": {"Integer"}, "stored": {"Boolean"}, "collapsed": {"Boolean"}, "key": {"String"}, "detail": {"Token", "String"}}
PROXY = {"error": {"Token"}, "next-hop": {"Token", "String"}, "next-protocol": {"Token", "Bytes"}, "received-status": {"Integer"}, "details": {"String", "Token"}, "rcode": {"String"}, "info-code": {"Integer"}, "alert-id": {"Integer"},
         "alert-message": {"Token", "String"}, "status-code": {"Integer"}, "status-phrase": {"String"}, "header-section-size": {"Integer"}, "header-name": {"String"}, "header-size": {"Integer"}, "body-size": {"Integer"},
         "trailer-section-size": {"Integer"}, "trailer-name": {"String"}, "trailer-size": {"Integer"}, "coding": {"Token"}}
ERRORS = ["dns_timeout", "dns_error", "connection_refused", "tls_alert_received", "http_request_denied", "proxy_loop_detected", "http_response_trailer_size"]
CDN_NONE = {"immutable", "must-revalidate", "must-understand", "no-store", "no-transform", "only-if-cached", "proxy-revalidate", "public"}
CDN_INT = {"max-age", "max-stale", "min-fresh", "s-maxage", "stale-if-error", "stale-while-revalidate", "pre-check", "post-check"}
CDN_STR = {"no-cache", "private"}
ODD = ["x", "hits", "max_age", "matches", "fwd_status", "foo", "*", "q", "a.b"]


@st.composite
def value(draw, want=None):
    """(text after the name, type); mostly one of the wanted types"""
    kind = draw(S(sorted(want))) if want and draw(st.integers(0, 3)) else draw(S(sorted(TYPES)))
    text = draw(S(TYPES[kind]))
    return ("=" + text if text else ""), kind


def lines(draw, name, members):
    out = []
    while members:
        n = draw(st.integers(1, len(members)))
        out.append((name.encode(), ", ".join(members[:n]).encode()))
        members = members[n:]
    return out


@st.composite
def status(draw):
    """Cache-Status and Proxy-Status."""
    name = draw(S(["Cache-Status", "Proxy-Status"]))
    known, short = (CACHE, "CACHE_STATUS") if name == "Cache-Status" else (PROXY, "PROXY_STATUS")
    members, want = [], []
    for _ in range(draw(st.integers(1, 3))):
        text = draw(S(["a", "ExampleCache", '"a b"', '"cdn.example"', "b*"]))
        for p in draw(st.lists(st.one_of(S(sorted(known)), S(sorted(known)), S(ODD)), max_size=4, unique=True)):
            v, kind = draw(value(known.get(p)))
            if p == "fwd" and draw(st.booleans()):
                v, kind = "=" + draw(S(FWD)), "Token"
            if p == "error" and draw(st.booleans()):
                v, kind = "=" + draw(S(ERRORS)), "Token"
            text += draw(S([";", "; "])) + p + v
            if p not in known:
                want.append((short + "_UNKNOWN_PARAM", p))
            elif kind not in known[p] or p == "fwd" and v[1:] not in FWD:
                want.append((short + "_BAD_PARAM_VAL", p))
        members.append(text)
    want.append((short, None))
    return lines(draw, name, members), want, "response"


@st.composite
def dictionary(draw):
    """Use-As-Dictionary."""
    types = {"match": {"String"}, "id": {"String"}, "type": {"String"}, "ttl": {"Integer"}, "match-dest": {"String"}}
    members, want = [], []
    for p in draw(st.lists(st.one_of(S(sorted(types)), S(sorted(types)), S(ODD)), min_size=1, max_size=5, unique=True)):
        v, kind = draw(value(types.get(p)))
        if draw(st.integers(0, 4)) == 4 or p == "match-dest" and draw(st.booleans()):
            v = draw(S(INNER))
            kind = "strings" if v in ("()", '("a" "b";p)', '("a");x=1') else "Inner List"
            v = "=" + v
        members.append(p + v + draw(S(["", "", ";p"])))
        if p == "match-dest":
            if kind not in ("String", "strings"):
                want.append(("USE_AS_DICTIONARY_BAD_MATCH_DEST", None))
        elif p in types and kind not in types[p]:
            want.append(("USE_AS_DICTIONARY_BAD_TYPE", p))
    return lines(draw, "Use-As-Dictionary", members), want, "response"


@st.composite
def cdn(draw):
    """CDN-Cache-Control."""
    members, want = [], [("CDN_CACHE_CONTROL_PRESENT", None)]
    for p in draw(st.lists(st.one_of(S(sorted(CDN_NONE)), S(sorted(CDN_INT)), S(sorted(CDN_INT)), S(sorted(CDN_STR)), S(["x", "foo", "maxage"])), min_size=1, max_size=5, unique=True)):
        types = {"Boolean"} if p in CDN_NONE else {"Integer"} if p in CDN_INT else {"String", "Boolean"}
        v, kind = draw(value(types))
        if draw(st.integers(0, 7)) == 7:
            v, kind = "=" + draw(S(INNER)), "Inner List"
        members.append(p + v + draw(S(["", "", ";p"])))
        true = kind == "Boolean" and v != "=?0"
        ok = true if p in CDN_NONE else kind == "Integer" if p in CDN_INT else (true or kind == "String") if p in CDN_STR else True
        if not ok:
            want.append(("BAD_CDN_CC_TYPE", p))
    return lines(draw, "CDN-Cache-Control", members), want, "response"


@st.composite
def groups(draw):
    """Cache-Groups and Cache-Group-Invalidation."""
    name, cls = draw(S([("Cache-Groups", "CACHE_GROUPS_BAD_TYPE"), ("Cache-Group-Invalidation", "CACHE_GROUP_INVALIDATION_BAD_TYPE")]))
    members, bad = [], False
    for _ in range(draw(st.integers(1, 4))):
        v, kind = draw(value({"String"}))
        if draw(st.integers(0, 7)) == 7:
            v, kind = "=" + draw(S(INNER)), "Inner List"
        v = v[1:] or "?1"
        bad |= kind != "String"
        members.append(v + draw(S(["", "", ";p"])))
    return lines(draw, name, members), [(cls, None)] if bad else [], "response"


NAME = S(["text", "application", "a", "vnd.x+json", "TEXT", "1x", "x-y"])


@st.composite
def query(draw):
    """Accept-Query."""
    members, want, values = [], [], []
    for _ in range(draw(st.integers(1, 3))):
        how = draw(st.integers(0, 6))
        if how < 3:
            text = draw(NAME) + "/" + draw(NAME)
            ok = True
        elif how == 3:
            text, ok = draw(S([("*/*", True), ("text/*", True), ("TEXT/*", True)]))
        elif how < 6:
            text, ok = draw(S(["text", "*", "*/html", "text/", "/html", "a/b/c", "text/ html", "a b/c", "", "a//b", "text;q=1", "t@xt/x", "é/x".replace("é", "(")])), False
        else:
            v, kind = draw(value({"Integer", "Bytes", "Decimal"}))
            if kind in ("String", "Token"):
                continue
            members.append(v[1:] or "?1")
            want.append(("ACCEPT_QUERY_BAD_TYPE", None))
            values.append(None)
            continue
        token = re.fullmatch(r"[A-Za-z*][!#$%&'*+.^_`|~:/0-9A-Za-z-]*", text) and draw(st.booleans())
        members.append((text if token else f'"{text}"') + draw(S(["", ";q=1", ';charset="utf-8"'])))
        values.append(text.lower())
        if not ok:
            want.append(("ACCEPT_QUERY_BAD_SYNTAX", text.lower()))
    if not members:
        members, values = ["a/b"], ["a/b"]
    return lines(draw, "Accept-Query", members), want, values


KEYS = {"CACHE_STATUS": None, "PROXY_STATUS": None, "CACHE_STATUS_UNKNOWN_PARAM": "param", "PROXY_STATUS_UNKNOWN_PARAM": "param", "CACHE_STATUS_BAD_PARAM_VAL": "param", "PROXY_STATUS_BAD_PARAM_VAL": "param", "USE_AS_DICTIONARY_BAD_TYPE": "param",
        "USE_AS_DICTIONARY_BAD_MATCH_DEST": None, "CDN_CACHE_CONTROL_PRESENT": None, "BAD_CDN_CC_TYPE": "bad_directive", "CACHE_GROUPS_BAD_TYPE": None, "CACHE_GROUP_INVALIDATION_BAD_TYPE": None, "ACCEPT_QUERY_BAD_TYPE": None, "ACCEPT_QUERY_BAD_SYNTAX": "value"}


def check(case, rec):
    headers, want, extra = case
    linter = lib.lint(lib.resp(headers))
    name = headers[0][0].decode()
    got = []
    for n in lib.all_notes(linter.notes):
        cls = type(n).__name__
        if cls in KEYS:
            got.append((cls, str(n.vars[KEYS[cls]]) if KEYS[cls] else None))
            same(n.subject, "field-" + name.lower(), f"subject of {cls}")
            text = n.summary + " " + str(n.detail)
            require("%s" not in text and "%(" not in text, "%s isn't filled in: %r", cls, text)
            if cls in ("CACHE_STATUS", "PROXY_STATUS"):
                for p in re.findall(r'Additional details: `|The next protocol was `', str(n.vars["status"])):
                    rec.label("described")
    rec.label(*{w[0] for w in want})
    rec.nt(any("BAD" in w[0] or "UNKNOWN" in w[0] for w in want))
    same(sorted(got, key=repr), sorted([tuple(w) for w in want], key=repr), f"findings for {headers!r}")
    if name == "Accept-Query":
        values = [str(v).lower() if w is not None else None for (v, _), w in zip(linter.headers.parsed["accept-query"], extra)]
        same(values, extra, f"value of {headers!r}")
        same([str(v) for (v, _), w in zip(linter.headers.parsed["accept-query"], extra) if w is not None], [w for w in extra if w is not None], f"case of {headers!r}")


CHECKS = [
    Check("status", status, check, n=1500),
    Check("dictionary", dictionary, check, n=1000),
    Check("cdn", cdn, check, n=1000),
    Check("groups", groups, check, n=500),
    Check("accept-query", query, check, n=700),
]
