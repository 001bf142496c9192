"""C16: the findings about the status code."""
import collections
import re

from hypothesis import strategies as st

from pbt import gen, lib, relate, scenarios, spec
from pbt.core import Check, same

RULE = "a case is a response with a status code, with or without its request; non-trivial when its status has a rule of its own"
ASSUMPTIONS = ["what each status code requires and says is a table written down here from the catalogue's texts and RFC 9110"]
S = st.sampled_from

SAYS = {103: "STATUS_EARLY_HINTS", 104: "STATUS_UPLOAD_RESUMPTION_SUPPORTED", 208: "STATUS_ALREADY_REPORTED", 305: "STATUS_DEPRECATED", 306: "STATUS_RESERVED",
        400: "STATUS_BAD_REQUEST", 403: "STATUS_FORBIDDEN", 404: "STATUS_NOT_FOUND", 409: "STATUS_CONFLICT", 410: "STATUS_GONE", 413: "STATUS_REQUEST_ENTITY_TOO_LARGE",
        414: "STATUS_URI_TOO_LONG", 415: "STATUS_UNSUPPORTED_MEDIA_TYPE", 418: "STATUS_IM_A_TEAPOT", 421: "STATUS_MISDIRECTED_REQUEST", 425: "STATUS_TOO_EARLY",
        428: "STATUS_PRECONDITION_REQUIRED", 429: "STATUS_TOO_MANY_REQUESTS", 431: "STATUS_REQUEST_HEADER_FIELDS_TOO_LARGE", 451: "STATUS_UNAVAILABLE_FOR_LEGAL_REASONS",
        500: "STATUS_INTERNAL_SERVICE_ERROR", 501: "STATUS_NOT_IMPLEMENTED", 502: "STATUS_BAD_GATEWAY", 503: "STATUS_SERVICE_UNAVAILABLE", 504: "STATUS_GATEWAY_TIMEOUT",
        505: "STATUS_VERSION_NOT_SUPPORTED", 508: "STATUS_LOOP_DETECTED", 511: "STATUS_NETWORK_AUTHENTICATION_REQUIRED"}
SILENT = {102, 200, 202, 203, 204, 205, 207, 226, 300, 401, 402, 407, 408, 411, 422, 423, 424, 426, 506, 507, 510}
CONDITIONAL = {100, 101, 201, 206, 301, 302, 303, 304, 307, 308, 405, 406, 412, 416, 417}
KNOWN = set(SAYS) | SILENT | CONDITIONAL
NEGOTIATION = ["accept", "accept-charset", "accept-encoding", "accept-language"]
PRECONDITIONS = ["if-match", "if-none-match", "if-modified-since", "if-unmodified-since", "if-range"]
OTHERS = {"UNEXPECTED_CONTINUE", "UPGRADE_NOT_REQUESTED", "CREATED_SAFE_METHOD", "CREATED_WITHOUT_LOCATION", "PARTIAL_NOT_REQUESTED", "PARTIAL_WITHOUT_RANGE",
          "REDIRECT_WITHOUT_LOCATION", "NO_DATE_304", "HEADER_SHOULD_NOT_BE_IN_304", "LOCATION_UNDEFINED"}
REQ_LINES = [(b"Expect", b"100-continue"), (b"expect", b"100-Continue"), (b"Expect", b"x"), (b"Expect", b"x, 100-continue"), (b"Expect", b"x-100-continue"),
             (b"Range", b"bytes=0-1"), (b"RANGE", b"bytes=-5"), (b"Upgrade", b"h2c"), (b"upgrade", b"websocket"), (b"X-Range", b"bytes=0-1"),
             (b"If-Match", b'"x"'), (b"If-None-Match", b"*"), (b"if-modified-since", scenarios.imf(scenarios.NOW)), (b"If-Unmodified-Since", scenarios.imf(scenarios.NOW)), (b"If-Range", b'"x"'), (b"If-Foo", b'"x"'),
             (b"Accept", b"*/*"), (b"Accept-Charset", b"utf-8"), (b"accept-encoding", b"gzip"), (b"Accept-Language", b"en"), (b"Accept-Foo", b"x"), (b"Host", b"example.com"), (b"User-Agent", b"x/1")]
RESP_LINES = [(b"Location", b"/x"), (b"location", b"http://example.com/y"), (b"Content-Location", b"/x"), (b"Date", scenarios.imf(scenarios.NOW)), (b"date", b"x"),
              (b"Content-Type", b"text/html"), (b"Content-Type", b"multipart/byteranges; boundary=x"), (b"content-type", b"Multipart/ByteRanges;boundary=\"y\""), (b"Content-Type", b"multipart/mixed; boundary=x"), (b"content-encoding", b"gzip"), (b"Content-Language", b"en"), (b"Content-Range", b"bytes 0-1/2"), (b"content-range", b"bytes */2"), (b"Last-Modified", scenarios.imf(scenarios.NOW)),
              (b"Retry-After", b"10"), (b"Upgrade", b"h2c"), (b"WWW-Authenticate", b"Basic realm=x"), (b"ETag", b'"x"'), (b"Vary", b"Accept"), (b"Cache-Control", b"max-age=5"),
              (b"Content-Length", b"3"), (b"Content-Disposition", b"inline"), (b"Allow", b"GET"), (b"Expires", scenarios.imf(scenarios.NOW)), (b"Content-Security-Policy", b"default-src *"), (b"Accept-Ranges", b"bytes"), (b"Transfer-Encoding", b"chunked"), (b"Content-MD5", b"Q2hlY2sgSW50ZWdyaXR5IQ=="), (b"X-Foo", b"bar"), (b"Connection", b"close")]
METHODS = [b"GET", b"HEAD", b"OPTIONS", b"TRACE", b"POST", b"PUT", b"DELETE", b"PATCH", b"CONNECT", b"get", b"FOO", b"Trace"]
ODD = [b"", b"abc", b"+200", b" 200", b"200 ", b"2_00", b"-1", b"20x", b"\xb2\xb3", b"2.0", b"0x10", b"200\n", b"1" * 10, b"9" * 5000, b"\xd9\xa2\xd9\xa0\xd9\xa0", b"None", b"100-continue", b"\x00"]


@st.composite
def cases(draw, code=None):
    if code is None:
        code = draw(st.one_of(S(sorted(CONDITIONAL)), S(sorted(CONDITIONAL)), S(sorted(KNOWN)), st.integers(100, 999), st.integers(0, 1200), S(ODD)))
    top = code if isinstance(code, bytes) else str(code).encode()
    hs = draw(st.lists(S(RESP_LINES), max_size=4))
    if code == 405 or draw(st.integers(0, 9)) == 0:
        for _ in range(draw(st.integers(0, 2))):
            hs.append((draw(S([b"Allow", b"allow"])), ", ".join(draw(st.lists(S([m.decode() for m in METHODS]), max_size=4))).encode()))
    m = lib.msg("response", draw(st.permutations(hs)), top=(b"HTTP/1.1", top, draw(S([b"x", b"", None, b"Not Found"]))), chunks=draw(S([[], [], [b"abc"]])))
    if draw(st.integers(0, 4)) < 3:
        m["related"] = lib.req(draw(st.lists(S(REQ_LINES), max_size=4)), method=draw(S(METHODS)), uri=b"http://example.com/" + draw(S([b"", b"", b"aaaaa", b"a" * 9000, b"\xc3\xa9", b"a#b", b"\xff" * 30])))
    return m


def members(lines, name):
    """The comma-separated members of a request field."""
    return [v.strip() for n, t in lines if n.decode("latin-1").lower() == name for v in t.decode("latin-1").split(",")]


def model(m):
    """[(finding, its varying part)] for the status."""
    code_text = m["top"][1].decode("ascii", "replace")
    r = m.get("related")
    rl = r["headers"] if r else []
    has = {relate.canon(n) for n, _ in m["headers"]}
    want = []
    numeric = re.fullmatch(r"[0-9]{1,9}", code_text) is not None
    code = int(code_text) if numeric else None
    if not numeric:
        want.append("STATUS_CODE_NON_NUMERIC")
    want += ["LOCATION_UNDEFINED"] * (sum(relate.canon(n) == "location" for n, _ in m["headers"][:]) > 0 and code not in (201, 300, 301, 302, 303, 305, 307, 308))

    def lacks(names):
        return r is not None and not any(members(rl, n) for n in names)

    if code not in KNOWN:
        want.append("STATUS_NONSTANDARD")
    elif code in SAYS:
        want.append(SAYS[code])
    elif code == 100 and r is not None and "100-continue" not in [v.lower() for v in members(rl, "expect")]:
        want.append("UNEXPECTED_CONTINUE")
    elif code == 101 and lacks(["upgrade"]):
        want.append("UPGRADE_NOT_REQUESTED")
    elif code == 201:
        if r is not None and r["top"][0] in (b"GET", b"HEAD", b"OPTIONS", b"TRACE"):
            want.append("CREATED_SAFE_METHOD")
        if "location" not in has:
            want.append("CREATED_WITHOUT_LOCATION")
    elif code == 206:
        if lacks(["range"]):
            want.append("PARTIAL_NOT_REQUESTED")
        first = [t for n, t in m["headers"] if relate.canon(n) == "content-type"][:1] or [b""]
        if "content-range" not in has and first[0].partition(b";")[0].strip().lower() != b"multipart/byteranges":
            want.append("PARTIAL_WITHOUT_RANGE")
    elif code in (301, 302, 303, 307, 308) and "location" not in has:
        want.append("REDIRECT_WITHOUT_LOCATION")
    elif code == 304:
        if "date" not in has:
            want.append("NO_DATE_304")
        if has & {"content-type", "content-encoding", "content-language"}:
            want.append("HEADER_SHOULD_NOT_BE_IN_304")
    elif code == 405:
        allowed = [v for n, t in m["headers"] if relate.canon(n) == "allow" for v in re.split(r"[ \t]*,[ \t]*", t.decode()) if v]
        method = r["top"][0].decode() if r else None
        want.append("STATUS_405_METHOD_IN_ALLOW" if method in allowed else "STATUS_METHOD_NOT_ALLOWED")
    elif code == 406:
        want.append("STATUS_406_WITHOUT_NEGOTIATION" if lacks(NEGOTIATION) else "STATUS_NOT_ACCEPTABLE")
    elif code == 412:
        want.append("STATUS_412_WITHOUT_PRECONDITION" if lacks(PRECONDITIONS) else "STATUS_PRECONDITION_FAILED")
    elif code == 416 and lacks(["range"]):
        want.append("STATUS_416_WITHOUT_RANGE")
    elif code == 417:
        if lacks(["expect"]):
            want.append("STATUS_417_WITHOUT_EXPECT")
        elif r is not None and "100-continue" in [v.lower() for v in members(rl, "expect")]:
            want.append("STATUS_417_WITH_100_CONTINUE")
        else:
            want.append("STATUS_EXPECTATION_FAILED")
    return code, want


def check(m, rec):
    code, want = model(m)
    linter = lib.lint(m)
    same(linter.status_code, code, f"status_code for {m['top'][1]!r}")
    notes = [n for n in lib.all_notes(linter.notes) if type(n).__name__ in OTHERS or type(n).__name__.startswith("STATUS_")]
    got = [type(n).__name__ for n in notes]
    if got.count("LOCATION_UNDEFINED") > 1:  # one per Location line
        same(got.count("LOCATION_UNDEFINED"), 1, "LOCATION_UNDEFINED findings")
    same(collections.Counter(got), collections.Counter(want), f"findings about status {m['top'][1]!r} with {m['headers']!r} and request {(m.get('related') or {}).get('top')!r} {(m.get('related') or {}).get('headers')!r}")
    r = m.get("related")
    for n in notes:
        cls, v = type(n).__name__, n.vars
        if "status" in v and code is not None:
            same(str(v["status"]), str(code), f"status named by {cls}")
        if "method" in v and r is not None:
            same(str(v["method"]), r["top"][0].decode(), f"method named by {cls}")
        if cls == "HEADER_SHOULD_NOT_BE_IN_304":
            same(set(re.findall("[a-z][a-z0-9-]+", str(v["headers"]).lower())), {relate.canon(x) for x, _ in m["headers"]} & {"content-type", "content-encoding", "content-language"}, "the fields named that a 304 shouldn't have")
        if cls == "STATUS_URI_TOO_LONG" and r is not None:
            same(re.sub("[^0-9]", "", str(v["uri_len"])), str(len(linter.request.uri)), "length given for the URI")
    rec.nt(code not in SILENT)
    rec.label("(nonstandard)" if code not in KNOWN else str(code))


def enum_cases(tier):
    """Every status code, bare, with each response field, and with each request field and method."""
    out = []
    for code in list(range(0, 1000)) + ODD:
        top = (b"HTTP/1.1", code if isinstance(code, bytes) else str(code).encode(), b"x")
        out.append(lib.msg("response", [], top=top))
        if code in KNOWN or isinstance(code, bytes):
            for h in RESP_LINES + [(b"Allow", b"GET, HEAD")]:
                out.append(lib.msg("response", [h], top=top))
            out.append(lib.msg("response", [(b"Location", b"/"), (b"Date", scenarios.imf(scenarios.NOW))], top=top))
            for h in REQ_LINES:
                out.append(lib.msg("response", [], top=top, related=lib.req([h])))
            for method in METHODS:
                for allow in ([], [(b"Allow", method)], [(b"Allow", b"GET, HEAD"), (b"allow", b"PUT")]):
                    out.append(lib.msg("response", allow, top=top, related=lib.req([], method=method)))
    return out


CHECKS = [
    Check("every status", None, check, enum=enum_cases, note="every status code from 0 to 999, with and without each field that matters"),
    Check("mixtures", cases, check, n=9000, note="reference model of the findings for a status, its fields and its request"),
]
