"""C38: every finding says which part of the message it is about."""
import re

from hypothesis import strategies as st

from pbt import gen, lib, pool, scenarios, spec
from pbt.core import Check, require, same

RULE = "a case is a message; non-trivial when findings point at two or more different parts of it"
ASSUMPTIONS = ["a subject is empty (the message as a whole), or names its parts, separated by spaces: message, method, uri, status, field-block, offset-N (the Nth line of the headers or trailers), field-NAME (in lower case)",
               "a finding about a field points at fields of the message, unless it says that the field is missing, or is about caching"]
S = st.sampled_from
FIXED = {"", "message", "method", "uri", "status", "field-block"}

# Where findings that no single field gives belong: class -> the subject
WHERE = {
    "CL_CORRECT": "field-content-length", "CL_INCORRECT": "field-content-length", "CONTENT_NOT_ALLOWED": "message", "REQUEST_CONTENT_NOT_DEFINED": "message",
    "URI_TOO_LONG": "uri", "URI_BAD_SYNTAX": "uri", "STATUS_CODE_NON_NUMERIC": "status", "STATUS_PHRASE_ENCODING": "status", "MISSING_USER_AGENT": "field-user-agent", "FIELD_SECTION_TOO_LARGE": "field-block",
    "CONTENT_TYPE_MISMATCH": "field-content-type", "CHARSET_UNDECODABLE": "field-content-type", "CHARSET_MISMATCH": "field-content-type", "CHARSET_IMPLICIT_MISMATCH": "field-content-type",
    "DECOMPRESSION_LIMIT": "field-content-encoding", "BAD_GZIP": "field-content-encoding", "BAD_ZLIB": "field-content-encoding", "BAD_BROTLI": "field-content-encoding",
    "CORS_PREFLIGHT_REQUEST": "method field-access-control-request-method field-access-control-request-headers", "CORS_PREFLIGHT_REQ_METHOD_WRONG": "method", "CORS_PREFLIGHT_REQ_NO_ORIGIN": "field-origin",
    "CORS_PREFLIGHT_REQ_NO_METHOD": "field-access-control-request-headers", "CORS_PREFLIGHT_RESPONSE": "", "ACAO_MULTIPLE_VALUES": "field-access-control-allow-origin", "CORS_ORIGIN_NULL": "field-access-control-allow-origin",
    "CORS_ORIGIN_STAR": "field-access-control-allow-origin", "CORS_ORIGIN_MATCH": "field-access-control-allow-origin", "CORS_ORIGIN_MISMATCH": "field-access-control-allow-origin",
    "STORE_METHOD_UNCACHEABLE": "method", "DATE_CLOCKLESS": "", "DATE_CLOCKLESS_BAD_HDR": "field-expires field-last-modified", "CURRENT_AGE": "field-age field-date", "CC_AND_EXPIRES": "field-expires field-cache-control",
    "FRESHNESS_HEURISTIC": "field-last-modified", "FRESHNESS_NONE": "",
    "STATUS_NONSTANDARD": "status", "UNEXPECTED_CONTINUE": "status", "UPGRADE_NOT_REQUESTED": "status", "CREATED_SAFE_METHOD": "status", "CREATED_WITHOUT_LOCATION": "field-location", "PARTIAL_NOT_REQUESTED": "",
    "PARTIAL_WITHOUT_RANGE": "field-content-range", "REDIRECT_WITHOUT_LOCATION": "field-location", "NO_DATE_304": "status", "STATUS_405_METHOD_IN_ALLOW": "field-allow", "STATUS_URI_TOO_LONG": "uri",
}
for _n in ("STORE_NO_STORE", "STORE_PRIVATE_CC", "STORE_PRIVATE_AUTH", "STORE_PRIVATE_PUBLIC_CONFLICT", "STORE_PUBLIC_AUTH", "STORE_PUBLIC_UNNECESSARY", "STORE_STORABLE", "STORE_STORABLE_SHARED_ONLY", "STORE_UNSTORABLE",
           "FRESHNESS_NO_CACHE", "FRESHNESS_NO_CACHE_NO_VALIDATOR", "STALE_SERVABLE", "STALE_IF_ERROR", "STALE_WHILE_REVALIDATE", "FRESH_MUST_REVALIDATE", "STALE_MUST_REVALIDATE", "FRESH_PROXY_REVALIDATE", "STALE_PROXY_REVALIDATE"):
    WHERE[_n] = "field-cache-control"
FRESHNESS = {"FRESHNESS_FRESH", "FRESHNESS_STALE_ALREADY", "FRESHNESS_SHARED_PRIVATE"}
# may point at a field that isn't there
ABSENT = {n for n, w in WHERE.items() if w.startswith("field-cache-control")} | FRESHNESS | {
    "MISSING_USER_AGENT", "CORS_PREFLIGHT_REQ_NO_ORIGIN", "CREATED_WITHOUT_LOCATION", "REDIRECT_WITHOUT_LOCATION", "PARTIAL_WITHOUT_RANGE", "DATE_CLOCKLESS_BAD_HDR", "CURRENT_AGE", "FRESHNESS_HEURISTIC", "AGE_PENALTY",
    "CORS_PREFLIGHT_REQUEST", "CC_AND_EXPIRES"}


def present(linter):
    return {spec.canonical(n).lower() for n, _ in linter.headers.text} | {spec.canonical(n).lower() for n, _ in linter.trailers.text}


def look(linter, note, here, parent=None):
    name, subject = type(note).__name__, note.subject
    count = max(len(linter.headers.text), len(linter.trailers.text))
    parts = subject.split(" ")
    for p in parts:
        if p in FIXED:
            continue
        at = re.fullmatch("offset-([0-9]+)", p)
        if at:
            require(int(at.group(1)) < count, "%s is about line %s of %s", name, p, count)
            continue
        require(p.startswith("field-"), "%s has the subject %r, which isn't a part of a message", name, subject)
        require(p == p.lower(), "%s's subject isn't in lower case: %r", name, subject)
        require(p[6:] in here or name in ABSENT, "%s is about %s, which isn't in the message", name, p)
    if subject.startswith("field-") and "field_type" in note.vars:
        # which section the field is in (it may be in both)
        where = [t for t, sec in (("header", linter.headers), ("trailer", linter.trailers)) if "field-" + spec.canonical(note.vars["field_name"]).lower() in {"field-" + spec.canonical(n).lower() for n, _ in sec.text}]
        require(not where or str(note.vars["field_type"]) in where, "%s about %s says %s is in the %s section, not in %s", name, subject, note.vars["field_name"], note.vars["field_type"], where)
    if name in FRESHNESS:
        require(set(parts) <= {"field-date", "field-expires", "field-cache-control"}, "%s has the subject %r", name, subject)
        for f in ("expires", "cache-control"):
            # it names the fields whose freshness information is used
            require(f"field-{f}" not in parts or f in here, "%s has the subject %r, but there's no %s", name, subject, f)
        if "expires" not in here:
            require("field-cache-control" in parts, "%s has the subject %r", name, subject)
    elif name == "CORS_PREFLIGHT_ONLY":
        same(set(parts), {"field-" + h.lower() for h in str(note.vars["headers"]).split(", ")}, "the subject of CORS_PREFLIGHT_ONLY")
    elif name == "HEADER_SHOULD_NOT_BE_IN_304":
        same(set(parts), {f"field-{h}" for h in ("content-type", "content-encoding", "content-language") if h in here}, "the subject of HEADER_SHOULD_NOT_BE_IN_304")
    elif name in WHERE:
        same(subject, WHERE[name], f"the subject of {name}")
    elif "field_name" in note.vars and len(parts) == 1 and subject.startswith("field-"):
        same(subject[6:], str(note.vars["field_name"]).lower(), f"the subject of {name}, compared with the field it names")
    if parent is not None:
        same(subject, parent.subject, "a subnote's subject, compared with its note's")
        for k, v in parent.vars.items():
            require(k in note.vars, "a subnote lacks its note's variable %s", k)
    for s in note.subnotes:
        look(linter, s, here, note)
    return parts


@st.composite
def cases(draw):
    return draw(st.one_of(gen.message(), gen.message(), scenarios.caching(), scenarios.cors(), scenarios.security(), scenarios.conditional(), scenarios.status(), scenarios.charset()))


def check(m, rec):
    linter = lib.lint(m)
    here = present(linter)
    seen = set()
    for n in linter.notes:
        if type(n).__name__ == "STORE_METHOD_UNCACHEABLE":
            continue
        seen.update(look(linter, n, here))
    other = linter.request if linter.as_response else linter.response
    if other is not None:
        there = present(other)
        for n in other.notes:
            look(other, n, there)
    rec.nt(len(seen) > 1)
    rec.label(*{re.sub("[0-9]+", "N", re.sub("field-.*", "field-NAME", p)) or "message as a whole" for p in seen})


def status_cases(tier):
    """every defined and some undefined statuses, with no fields, or with each field a status looks at"""
    out = []
    for code in list(range(100, 105)) + list(range(200, 210)) + [226] + list(range(300, 310)) + list(range(400, 452)) + list(range(500, 512)) + [0, 99, 600, 999, "abc", "2 0"]:
        for hs in ([], [(b"Location", b"/x")], [(b"Content-Type", b"text/html"), (b"Content-Encoding", b"br")], [(b"Content-Language", b"en")], [(b"Allow", b"GET, POST")], [(b"Content-Range", b"bytes 0-1/2")],
                   [(b"Access-Control-Allow-Methods", b"GET")], [(b"Access-Control-Max-Age", b"5"), (b"Access-Control-Allow-Headers", b"x")], [(b"Expires", b"0"), (b"Date", b"Thu, 01 Jan 2015 00:00:00 GMT")]):
            for method in (b"GET", b"PUT", None):
                m = lib.resp(hs, status=code) if isinstance(code, int) else lib.msg("response", hs, top=(b"HTTP/1.1", code.encode(), b"x"))
                if method:
                    m["related"] = lib.req([(b"Host", b"a")], method=method)
                out.append(m)
    return out


CHECKS = [
    Check("subjects", cases, check, 7000, 150000, "messages of all kinds, and where their findings point"),
    Check("statuses", None, check, 1, 1, "all statuses with the fields they look at", enum=status_cases),
    Check("faulty", pool.messages, check, n=4000, note="messages like those of the other properties' checks"),
]
