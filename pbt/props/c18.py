"""C18: CORS requests, preflights and responses."""
import collections
import re

from hypothesis import strategies as st

from pbt import gen, lib
from pbt.core import Check, same

RULE = "a case is a request or response with CORS fields, with or without the other message; non-trivial when a CORS field is present"
ASSUMPTIONS = ["an Origin the generator makes is a lower-case serialized origin as browsers send it, 'null', or one of a table of invalid values"]
S = st.sampled_from

GOOD = {"https://example.com": ("https", "example.com", None), "http://example.com:8080": ("http", "example.com", 8080), "https://a.example": ("https", "a.example", None),
        "https://example.com:443": ("https", "example.com", 443), "http://[::1]:3000": ("http", "[::1]", 3000), "http://127.0.0.1": ("http", "127.0.0.1", None),
        "chrome-extension://abcdef": ("chrome-extension", "abcdef", None), "https://xn--bcher-kva.example": ("https", "xn--bcher-kva.example", None), "https://example.com:0": ("https", "example.com", 0)}
UPPER = {"HTTPS://Example.COM": ("https", "example.com", None), "Http://A.example:81": ("http", "a.example", 81)}
BAD = ["bogus", "https://example.com/", "https://example.com/x", "https:/example.com", "//example.com", "example.com", "https://example.com:x", "https://user@example.com", "NULL", "Null", "*", "https://exa<mple.com", "https://example.com?x", "1http://x"]
ACAO = ["*", "null", "https://example.com", "http://example.com", "https://example.com:443", "http://example.com:8080", "https://example.com/", "https://EXAMPLE.com", "https://a.example", "http://[::1]:3000", "http://127.0.0.1",
        "chrome-extension://abcdef", "https://example.com https://a.example", "https://a.example, https://example.com", "*, https://example.com", "bogus", "NULL", "http://a.example:81", "https://example.com:0", "https://example.com:8080", ""]
METHODS = ["OPTIONS", "OPTIONS", "OPTIONS", "GET", "POST", "PUT", "options", "HEAD"]
TOKENS = S(["x-foo", "X-Foo", "authorization", "Content-Type", "*", "a", "x_y"])
PREFLIGHT_ONLY = ["Access-Control-Allow-Headers", "Access-Control-Allow-Methods", "Access-Control-Max-Age"]
CLASSES = {"CORS_PREFLIGHT_REQUEST", "CORS_PREFLIGHT_REQ_METHOD_WRONG", "CORS_PREFLIGHT_REQ_NO_ORIGIN", "CORS_PREFLIGHT_REQ_NO_METHOD", "CORS_PREFLIGHT_RESPONSE", "CORS_PREFLIGHT_ONLY",
           "ACAO_MULTIPLE_VALUES", "CORS_ORIGIN_MATCH", "CORS_ORIGIN_MISMATCH", "CORS_ORIGIN_NULL", "CORS_ORIGIN_STAR", "CORS_MAX_AGE_INVALID", "CORS_MAX_AGE_NEGATIVE", "BAD_ORIGIN_SYNTAX", "ORIGIN_MULTIPLE_VALUES"}


@st.composite
def origin(draw):
    kind = draw(S(["good", "good", "good", "null", "bad", "two", "upper"]))
    if kind == "good":
        return draw(S(sorted(GOOD)))
    if kind == "null":
        return "null"
    if kind == "bad":
        return draw(S(BAD))
    if kind == "upper":
        return draw(S(sorted(UPPER)))
    return draw(S(sorted(GOOD))) + " " + draw(S(sorted(GOOD) + BAD))


def line(draw, name, value):
    return (gen._case(name, draw(st.integers(0, 3))).encode(), draw(S(["", "", " ", "\t"])).encode() + value.encode("latin-1") + draw(S(["", "", " "])).encode())


@st.composite
def request(draw):
    hs = []
    for _ in range(draw(S([0, 1, 1, 1, 1, 2]))):
        hs.append(line(draw, "Origin", draw(origin())))
    if draw(st.booleans()):
        hs.append(line(draw, "Access-Control-Request-Method", draw(S(["PUT", "GET", "get", "", "a b"]))))
    if draw(st.integers(0, 2)) == 0:
        hs.append(line(draw, "Access-Control-Request-Headers", ", ".join(draw(st.lists(TOKENS, max_size=3)))))
    if draw(st.integers(0, 3)) == 0:
        hs.append((b"User-Agent", b"x/1"))
    return lib.req(draw(st.permutations(hs)), method=draw(S(METHODS)).encode())


@st.composite
def response(draw, related=None):
    hs = []
    for _ in range(draw(S([0, 1, 1, 1, 1, 1, 2]))):
        v = draw(S(ACAO + ["SAME", "SAME", "SAME"]))
        if v == "SAME":
            sent = [x.decode("latin-1").strip() for n, x in (related or {"headers": ()})["headers"] if n.lower() == b"origin"]
            v = sent[0] if sent else "*"
        hs.append(line(draw, "Access-Control-Allow-Origin", v))
    for name, strat in (("Access-Control-Allow-Credentials", S(["true", "false", "True", ""])), ("Access-Control-Allow-Methods", st.lists(S(["PUT", "get", "*", "GET"]), max_size=3).map(", ".join)),
                        ("Access-Control-Allow-Headers", st.lists(TOKENS, max_size=3).map(", ".join)), ("Access-Control-Expose-Headers", st.lists(TOKENS, max_size=3).map(", ".join)),
                        ("Access-Control-Max-Age", S(["0", "10", "-1", "-0", "x", "", "1.5", "+5", "00", "99999999999", "1 2"])), ("Vary", S(["Origin", "Accept"]))):
        if draw(st.integers(0, 2)) == 0:
            hs.append(line(draw, name, draw(strat)))
    return lib.resp(draw(st.permutations(hs)), status=draw(S([200, 200, 204, 403])))


@st.composite
def exchanges(draw):
    how = draw(st.integers(0, 5))
    r = draw(request())
    if how == 0:
        return r
    m = draw(response(related=r))
    if how > 1:
        m["related"] = r
    return m


def values(m, name):
    return [v.decode("latin-1").strip(" \t") for n, v in m["headers"] if n.decode().lower() == name]


def is_preflight(r):
    return r["top"][0] == b"OPTIONS" and bool(values(r, "origin")) and bool(values(r, "access-control-request-method"))


def members(vals):
    return [x for v in vals for x in (y.strip(" \t") for y in v.split(",")) if x]


def parse_origin(v):
    """(scheme, host, port), None for null, or False."""
    first = v.split(" ")[0]
    if v == "null":
        return None
    if first in GOOD:
        return GOOD[first]
    return UPPER.get(first, False)


def request_model(r):
    want = collections.Counter()
    o, acrm, acrh = (values(r, n) for n in ("origin", "access-control-request-method", "access-control-request-headers"))
    if is_preflight(r):
        want["CORS_PREFLIGHT_REQUEST"] += 1
    if acrm or acrh:
        want["CORS_PREFLIGHT_REQ_METHOD_WRONG"] += r["top"][0] != b"OPTIONS"
        want["CORS_PREFLIGHT_REQ_NO_ORIGIN"] += not o
        want["CORS_PREFLIGHT_REQ_NO_METHOD"] += not acrm
    if o and o[0] != "null":
        want["ORIGIN_MULTIPLE_VALUES"] += " " in o[0]
        want["BAD_ORIGIN_SYNTAX"] += parse_origin(o[0]) is False
    return want


def response_model(m):
    want, named = collections.Counter(), {}
    r = m.get("related")
    if r is not None and is_preflight(r):
        want["CORS_PREFLIGHT_RESPONSE"] += 1
    else:
        present = [n for n in PREFLIGHT_ONLY if values(m, n.lower())]
        if present:
            want["CORS_PREFLIGHT_ONLY"] += 1
            named["CORS_PREFLIGHT_ONLY"] = {"headers": ", ".join(present)}
    acao = values(m, "access-control-allow-origin")
    if acao:
        want["ACAO_MULTIPLE_VALUES"] += " " in acao[0] or "," in acao[0]
        sent = values(r, "origin") if r is not None else []
        if sent:
            o = parse_origin(sent[0])
            text = sent[0].split(" ")[0].lower() if o else sent[0]
            if acao[0] == "*":
                cls = "CORS_ORIGIN_STAR" if text != "*" else None
            elif acao[0] == text:
                cls = "CORS_ORIGIN_MATCH"
            elif acao[0] == "null":
                cls = "CORS_ORIGIN_NULL"
            else:
                cls = "CORS_ORIGIN_MISMATCH"
            if cls is None:
                cls = "CORS_ORIGIN_STAR"
            want[cls] += 1
            if cls in ("CORS_ORIGIN_MATCH", "CORS_ORIGIN_MISMATCH"):
                named[cls] = {"origin": text}
            if cls == "CORS_ORIGIN_MISMATCH":
                named[cls]["acao_value"] = acao[0]
    age = values(m, "access-control-max-age")
    if age:
        ok = re.fullmatch(r"-?[0-9]+", age[0]) is not None
        want["CORS_MAX_AGE_INVALID"] += not ok
        want["CORS_MAX_AGE_NEGATIVE"] += ok and age[0].startswith("-")
    return want, named


def check(m, rec):
    linter = lib.lint(m)
    notes = [n for n in lib.all_notes(linter.notes) if type(n).__name__ in CLASSES]
    got = collections.Counter(type(n).__name__ for n in notes)
    about = f"{m['top'][:2]} {m['headers']} related to {(m.get('related') or {}).get('top')} {(m.get('related') or {}).get('headers')}"
    p = linter.headers.parsed
    if m["kind"] == "request":
        want, named = request_model(m), {}
        o = values(m, "origin")
        if o:
            parsed = parse_origin(o[0])
            v = p["origin"]
            same(v and (v.scheme, v.host, v.port), parsed or None, f"Origin {o[0]!r}")
        h = values(m, "access-control-request-headers")
        if h:
            same(list(p["access-control-request-headers"]), [x.lower() for x in members(h)], "requested header names")
        for n in notes:
            kind = type(n).__name__
            if kind == "CORS_PREFLIGHT_REQ_METHOD_WRONG":
                same(str(n.vars["method"]), m["top"][0].decode(), "method named")
            if kind.startswith("CORS_PREFLIGHT_REQ_"):
                method_sent = values(m, "access-control-request-method") and kind != "CORS_PREFLIGHT_REQ_NO_METHOD"
                same(str(n.vars["field_name"]), "Access-Control-Request-Method" if method_sent else "Access-Control-Request-Headers", f"field named by {kind} for {about}")
    else:
        want, named = response_model(m)
        cred = values(m, "access-control-allow-credentials")
        if cred:
            same(p["access-control-allow-credentials"], "true" if cred[0] == "true" else None, f"Allow-Credentials {cred[0]!r}")
        age = values(m, "access-control-max-age")
        if age:
            same(p["access-control-max-age"], int(age[0]) if re.fullmatch(r"[0-9]+", age[0]) else None, f"Max-Age {age[0]!r}")
        for name, low in (("allow-methods", False), ("allow-headers", True), ("expose-headers", False)):
            vals = values(m, "access-control-" + name)
            if vals:
                same(list(p["access-control-" + name]), [x.lower() if low else x for x in members(vals)], f"Access-Control-{name}")
    same(got, +want, f"CORS findings for {about}")
    for n in notes:
        for k, v in named.get(type(n).__name__, {}).items():
            same(str(n.vars[k]), v, f"{k} named by {type(n).__name__} for {about}")
    rec.nt(bool(want) and any(want.values()))
    rec.label(*[k for k, c in want.items() if c])


def enum_cases(tier):
    """Every origin against every Access-Control-Allow-Origin; every mixture of preflight fields and methods."""
    out = []
    for o in sorted(GOOD) + sorted(UPPER) + BAD + ["null", "https://example.com http://b.example", None]:
        for a in ACAO:
            for method in (b"GET", b"OPTIONS"):
                for acrm in (False, True):
                    rh = ([(b"Origin", o.encode())] if o is not None else []) + ([(b"Access-Control-Request-Method", b"PUT")] if acrm else [])
                    out.append(lib.resp([(b"Access-Control-Allow-Origin", a.encode()), (b"Access-Control-Max-Age", b"5")], related=lib.req(rh, method=method)))
    for method in METHODS:
        for bits in range(8):
            hs = [h for i, h in enumerate([(b"Origin", b"https://a.example"), (b"Access-Control-Request-Method", b"PUT"), (b"Access-Control-Request-Headers", b"x, Y")]) if bits >> i & 1]
            r = lib.req(hs, method=method.encode())
            out.append(r)
            for k in range(8):
                rs = [(n.encode(), b"1") for i, n in enumerate(PREFLIGHT_ONLY) if k >> i & 1]
                out.append(lib.resp(rs, related=r))
    return out


CHECKS = [
    Check("tables", None, check, enum=enum_cases, note="every origin against every allowed origin; every mixture of preflight fields"),
    Check("exchanges", exchanges, check, n=9000, note="reference model of preflight and origin findings and of the parsed values"),
]
