"""C31: browser security policies."""
import collections
import re

from hypothesis import strategies as st

from pbt import gen, lib
from pbt.core import Check, Skip, require, same

RULE = "a case is one browser security policy field in random case, spacing and order, on one or more lines; non-trivial when something in it is duplicated, unknown, unsafe, ignored or invalid"
ASSUMPTIONS = ["values are ASCII and conform to the outer syntax of their field (C10's); CSP directives hold no double quotes or commas", "HSTS values that are just semicolons aren't judged",
               "as the library documents it, a Permissions-Policy value is an Inner List of self, src and strings, or *; and Speculation-Rules URLs are insecure when their scheme, resolved against the base URI, is neither https nor wss",
               "X-Content-Type-Options is judged by its first value, as Fetch does; X-Frame-Options by whether DENY, else SAMEORIGIN, is one of its values"]
S = st.sampled_from
OWS = S(["", "", "", " ", "\t", "  "])


def cased(draw, text):
    how = draw(st.integers(0, 4))
    if how == 0:
        return text.upper()
    if how == 1:
        return text.swapcase()
    if how == 2:
        return text.lower()
    if how == 3:
        return "".join(ch.upper() if i % 3 == 1 else ch for i, ch in enumerate(text.lower()))
    return text


def split_lines(draw, name, members):
    out = []
    while members:
        n = draw(st.integers(1, len(members)))
        out.append((draw(S([name, name, name.lower(), name.upper()])).encode(), draw(S([", ", ",", " , "])).join(members[:n]).encode()))
        members = members[n:]
    return out


def tree(linter, pattern):
    """(class, its variables of interest, children) for each top-level note of these classes."""
    keep = re.compile(pattern)
    out = []
    for n in linter.notes:
        if keep.match(type(n).__name__):
            out.append((type(n).__name__, variables(n), sorted(((type(s).__name__, tuple(x for x in variables(s) if x[0] != "report_only")) for s in n.subnotes), key=repr)))
    return sorted(out, key=repr)


VARS = {"directive", "max_age", "directives_list", "token", "feature", "value", "item", "policy", "effective", "values", "url", "found_type", "report_only"}


def variables(n):
    return tuple(sorted((k, str(v)) for k, v in n.vars.items() if k in VARS))


def v(**kw):
    return tuple(sorted((k, str(x)) for k, x in kw.items()))


def compare(linter, pattern, want, headers):
    want = sorted([(c, vs, sorted(ch, key=repr)) for c, vs, ch in want], key=repr)
    same(tree(linter, pattern), want, f"findings for {headers!r}")
    for n in linter.notes:
        if re.match(pattern, type(n).__name__):
            for x in lib.all_notes([n]):
                text = str(x.summary) + str(x.detail)
                require("%(" not in text, "%s isn't filled in: %r", type(x).__name__, text)


# ------------------------------------------------------------------ Strict-Transport-Security
YEAR = 31536000


@st.composite
def hsts(draw):
    directives = []
    for _ in range(draw(st.integers(1, 5))):
        name = draw(S(["max-age", "max-age", "max-age", "includeSubDomains", "includeSubDomains", "preload", "preload", "x", "max_age", "maxage", "foo"]))
        if name == "max-age":
            val = draw(st.one_of(S([YEAR, YEAR - 1, YEAR + 1, 0, 1, 1536000, 63072000, "00", "031536000", 10 ** 20]).map(str), S(["", None, "-1", "1.5", "a", "1a", "+1", "0x1", "1_0", '""', '"x"', '"1"x', '"315360000"', '"0000031536000"', '" 1"']),
                             st.integers(0, 2 * YEAR).map(str), st.integers(0, 2 * YEAR).map(lambda i: f'"{i}"')))
        elif name in ("includeSubDomains", "preload"):
            val = draw(S([None] * 8 + ["", "1", '"a"', "true"]))
        else:
            val = draw(S([None, "1", '"a"', '"a;b"', '";max-age=0;"', '"preload; includeSubDomains"', '"\\";x"', '"a=b"']))
        text = cased(draw, name)
        if val is not None:
            text += draw(S(["=", "=", "=", " =", "= ", " = "])) + val
        directives.append((name.lower(), val, text))
    lines = []
    sep = lambda: draw(S([";", "; ", " ; ", ";;", " ;\t", "; ;"]))  # noqa: E731
    text = draw(S(["", "", "", ";", "; "])) + directives[0][2]
    for d in directives[1:]:
        text += sep() + d[2]
    trailing = draw(S([False, False, True]))
    if trailing:
        text += draw(S([";", "; ", ";;", " ;"]))
    lines.append(text)
    if draw(st.integers(0, 5)) == 5:
        lines.append(draw(S(["max-age=0", "max-age=31536000; includeSubDomains; preload", "junk=1;"])))
    base = draw(S([None, None, "https://example.com/", "http://example.com/", "HTTP://example.com/", "httpx://example.com/"]))
    return {"lines": lines, "directives": [d[:2] for d in directives], "trailing": trailing, "base": base, "status": draw(S([200, 200, 301, 302, 308, 404]))}


def check_hsts(c, rec):
    parsed = {"max-age": None, "includesubdomains": False, "preload": False}
    children, valid, seen, bad_age = [], True, set(), False
    if c["trailing"]:
        children.append(("HSTS_TRAILING_SEMICOLON", ()))
    for name, val in c["directives"]:
        if name in seen:
            children.append(("HSTS_DUPLICATE_DIRECTIVE", v(directive=name)))
            valid = False
            continue
        seen.add(name)
        if name == "max-age":
            digits = val if val is None or not (val[:1] == '"' and val[-1:] == '"' and len(val) > 1) else val[1:-1]
            if digits is not None and digits and all(ch in "0123456789" for ch in digits):
                parsed["max-age"] = int(digits)
            else:
                children.append(("HSTS_BAD_MAX_AGE", v(max_age=val)))
                bad_age, valid = True, False
        elif name in parsed:
            parsed[name] = True
            if val is not None:
                children.append(("HSTS_VALUE_NOT_ALLOWED", v(directive="includeSubDomains" if name[0] == "i" else name)))
                valid = False
    age = parsed["max-age"]
    if age is None:
        valid = False
        if not bad_age:
            children.append(("HSTS_NO_MAX_AGE", ()))
    elif age == 0:
        children.append(("HSTS_MAX_AGE_ZERO", ()))
    elif age < YEAR:
        children.append(("HSTS_SHORT_MAX_AGE", ()))
    children.append(("HSTS_SUBDOMAINS" if parsed["includesubdomains"] else "HSTS_NO_SUBDOMAINS", ()))
    if not parsed["preload"]:
        children.append(("HSTS_NO_PRELOAD", ()))
    else:
        children.append(("HSTS_PRELOAD" if parsed["includesubdomains"] and (age or 0) >= YEAR else "HSTS_PRELOAD_NOT_SUITABLE", ()))
    if c["base"] and c["base"].lower().startswith("http:") and c["status"] != 301:
        children.append(("HSTS_OVER_HTTP", ()))
        valid = False
    m = lib.resp([(b"Strict-Transport-Security", line.encode()) for line in c["lines"]], status=c["status"])
    m["base"] = c["base"]
    linter = lib.lint(m)
    rec.label(*{n for n, _ in children})
    rec.nt(not valid or c["trailing"])
    same(linter.headers.parsed["strict-transport-security"], parsed, f"value of {c['lines']!r}")
    compare(linter, "HSTS_", [("HSTS_VALID" if valid else "HSTS_INVALID", (), children)], c["lines"])


# ------------------------------------------------------------------ Content-Security-Policy
DIRECTIVES = ["default-src", "script-src", "style-src", "object-src", "img-src", "connect-src", "script-src-elem", "upgrade-insecure-requests", "report-uri", "frame-ancestors", "sandbox", "base-uri", "x-foo", "style-src2"]
SOURCES = ["'self'", "'none'", "*", "'unsafe-inline'", "'unsafe-eval'", "http:", "https:", "https://cdn.example", "http://cdn.example", "*.example.com", "'nonce-abc'", "data:", "'strict-dynamic'", "/csp", "'unsafe-hashes'", "http:*", "**", "unsafe-inline",
           "'wasm-unsafe-eval'", "*:443"]


@st.composite
def csp(draw):
    policies = []
    for _ in range(draw(st.integers(1, 3))):
        directives = []
        for _ in range(draw(st.integers(1, 5))):
            name = draw(S(DIRECTIVES + DIRECTIVES[:4] * 2))
            sources = draw(st.lists(S(SOURCES), max_size=4))
            ws = draw(S([" ", " ", "  ", "\t"]))
            directives.append((name, sources, cased(draw, name) + "".join(ws + (cased(draw, s) if s[0] == "'" or s == "http:" else s) for s in sources)))
        policies.append(directives)
    texts = []
    for p in policies:
        text = p[0][2]
        for d in p[1:]:
            text += draw(S([";", "; ", " ; ", ";;", "; ; "])) + d[2]
        texts.append(text + draw(S(["", "", ";", " ;", "; "])))
    ro = draw(st.booleans())
    return {"lines": split_lines(draw, "Content-Security-Policy" + ("-Report-Only" if ro else ""), texts), "policies": [[d[:2] for d in p] for p in policies], "ro": ro, "texts": [[d[2] for d in p] for p in policies]}


def check_csp(c, rec):
    found = collections.defaultdict(list)
    children, values = [], []
    for p, texts in zip(c["policies"], c["texts"]):
        seen, dups = {}, []
        for (name, sources), text in zip(p, texts):
            if name in seen:
                dups.append(name)
                continue
            head, _, rest = text.replace("\t", " ").partition(" ")
            seen[name] = text[len(head):].strip(" \t")
            if name == "report-uri":
                found["CSP_DEPRECATED_REPORT_URI"].append(name)
            if name in ("script-src", "style-src", "object-src") and "*" in sources:
                found["CSP_WIDE_OPEN"].append(name)
            for source, cls in (("'unsafe-inline'", "CSP_UNSAFE_INLINE"), ("'unsafe-eval'", "CSP_UNSAFE_EVAL"), ("http:", "CSP_HTTP_URI")):
                if source in sources:
                    found[cls].append(name)
        values.append(seen)
        if dups:
            children.append(("CSP_DUPLICATE_DIRECTIVE", v(directives_list="\n".join(f"* `{d}`" for d in dups))))
    for cls, where in found.items():
        children.append((cls, v(directives_list="\n".join(f"* `{d}`" for d in where)) if cls != "CSP_DEPRECATED_REPORT_URI" else ()))
    linter = lib.lint(lib.resp(c["lines"]))
    name = c["lines"][0][0].decode().lower()
    rec.label(*{n for n, _ in children}, f"policies-{len(values)}")
    rec.nt(bool(children))
    same(linter.headers.parsed[name], values, f"value of {c['lines']!r}")
    compare(linter, "CONTENT_SECURITY_POLICY|CSP_", [("CONTENT_SECURITY_POLICY", v(report_only=" for reporting only" if c["ro"] else ""), children)], c["lines"])


# ------------------------------------------------------------------ Permissions-Policy
FEATURES = ["camera", "microphone", "geolocation", "payment", "usb", "serial", "magnetometer", "accelerometer", "gyroscope", "screen-wake-lock", "fullscreen", "autoplay", "picture-in-picture", "x-camera", "camera2"]
SENSITIVE = set(FEATURES[:10])
ITEMS = [("self", "token"), ("src", "token"), ("none", "token"), ("Self", "token"), ("*", "token"), ("foo", "token"), ('"self"', "string"), ('"src"', "string"), ('"*"', "string"), ('"none"', "string"), ('"https://example.com"', "string"), ('"https://*.example"', "string"),
         ('"SELF"', "string"), ('"self "', "string"), ('" src"', "string"), ('""', "string"), ("1", "other"), ("?1", "other"), (":YQ==:", "other"), ("1.5", "other"), ("@0", "other")]


@st.composite
def permissions(draw):
    members = []
    for f in draw(st.lists(S(FEATURES), min_size=1, max_size=4)):
        how = draw(st.integers(0, 9))
        if how < 6:
            items = draw(st.lists(S(ITEMS), max_size=3))
            members.append((f, items, f + "=(" + draw(S(["", " "])) + draw(S([" ", "  "])).join(i[0] + draw(S(["", "", ";p"])) for i in items) + ")" + draw(S(["", "", ";report-to=x"]))))
        elif how < 8:
            members.append((f, "*", f + "=*" + draw(S(["", ";p=1"]))))
        else:
            t = draw(S(["self", "none", '"*"', "1", "?0", "src", '"https://example.com"', "**", ""]))
            members.append((f, "bad", f + ("=" + t if t else "")))
    return {"members": [m[:2] for m in members], "lines": split_lines(draw, "Permissions-Policy", [m[2] for m in members])}


def check_permissions(c, rec):
    final = {}
    for f, what in c["members"]:
        final[f] = what
    children = []
    for f, what in final.items():
        if what == "*":
            if f in SENSITIVE:
                children.append(("PERMISSIONS_POLICY_WILDCARD", v(feature=f)))
        elif what == "bad":
            children.append(("PERMISSIONS_POLICY_INVALID_VALUE", v(feature=f)))
        else:
            for text, kind in what:
                if kind == "token" and text not in ("self", "src"):
                    children.append(("PERMISSIONS_POLICY_UNKNOWN_TOKEN", v(token=text, feature=f)))
                elif kind == "string" and text in ('"self"', '"src"', '"*"', '"none"'):
                    children.append(("PERMISSIONS_POLICY_QUOTED_KEYWORD", v(value=text[1:-1], feature=f)))
                elif kind == "other":
                    children.append(("PERMISSIONS_POLICY_INVALID_ITEM_TYPE", v(feature=f)))
    linter = lib.lint(lib.resp(c["lines"]))
    rec.label(*{n for n, _ in children})
    rec.nt(bool(children))
    got = [(a, b, [(x, tuple(y for y in z if y[0] != "item")) for x, z in ch]) for a, b, ch in tree(linter, "PERMISSIONS_POLICY")]
    same([(a, b, sorted(ch, key=repr)) for a, b, ch in got], [("PERMISSIONS_POLICY_PRESENT", (), sorted(children, key=repr))], f"findings for {c['lines']!r}")


# ------------------------------------------------------------------ lists of keywords
REFERRER = ["no-referrer", "no-referrer-when-downgrade", "same-origin", "origin", "strict-origin", "origin-when-cross-origin", "strict-origin-when-cross-origin", "unsafe-url"]
STRICT = {"no-referrer", "same-origin", "strict-origin", "strict-origin-when-cross-origin"}
DATA = ["cache", "cookies", "storage", "executionContexts", "*"]


@st.composite
def referrer(draw):
    tokens = draw(st.lists(st.one_of(S(REFERRER), S(REFERRER), S(["never", "always", "origin-when-crossorigin", "x", "default", "no_referrer"])), min_size=1, max_size=4))
    wire = [cased(draw, t) for t in tokens]
    known = [t for t in tokens if t in REFERRER]
    want = [("REFERRER_POLICY_UNKNOWN", v(policy=t), []) for t in tokens if t not in REFERRER]
    if not known:
        want.append(("REFERRER_POLICY_EMPTY", (), []))
    else:
        if len(known) > 1:
            want.append(("REFERRER_POLICY_MULTIPLE", v(effective=known[-1]), []))
        if known[-1] == "unsafe-url":
            want.append(("REFERRER_POLICY_UNSAFE", (), []))
        elif known[-1] in STRICT:
            want.append(("REFERRER_POLICY_STRICT", v(policy=known[-1]), []))
    return split_lines(draw, "Referrer-Policy", wire), "REFERRER_", want, tokens, None


@st.composite
def clear(draw):
    members, want, values, effective, unquoted = [], [], [], [], []
    for _ in range(draw(st.integers(1, 5))):
        w = draw(st.one_of(S(DATA), S(DATA), S(["foo", "Cache", "executioncontexts", "CACHE", "all"])))
        quoted = draw(st.integers(0, 3)) > 0
        if draw(st.integers(0, 11)) == 11:
            w, quoted = "", True
        members.append(f'"{w}"' if quoted else w)
        values.append(w)
        if w == "":
            want.append(("CSD_EMPTY", (), []))
        elif w not in DATA:
            want.append(("CSD_UNKNOWN_VALUE", v(value=w), []))
        else:
            (effective if quoted else unquoted).append(w)
    if unquoted:
        want.append(("CSD_UNQUOTED", v(values=", ".join(unquoted)), []))
    if effective:
        want.append(("CSD_PRESENT", v(values=", ".join(f"`{e}`" for e in effective)), []))
    return split_lines(draw, "Clear-Site-Data", members), "CSD_", want, values, None


@st.composite
def nosniff(draw):
    tokens = draw(st.lists(S(["nosniff", "nosniff", "foo", "sniff", "nosniff2"]), min_size=1, max_size=3))
    wire = [cased(draw, t) for t in tokens]
    return split_lines(draw, "X-Content-Type-Options", wire), "CONTENT_TYPE_OPTIONS", [("CONTENT_TYPE_OPTIONS" if tokens[0] == "nosniff" else "CONTENT_TYPE_OPTIONS_UNKNOWN", (), [])], None, None


@st.composite
def frames(draw):
    token = draw(S(["DENY", "SAMEORIGIN", "DENY", "SAMEORIGIN", "ALLOWALL", "ALLOW-FROM https://deny.example", "ALLOW-FROM https://sameorigin.example/", "NODENY", "DENY2", "SAME-ORIGIN", "SAMEORIGINS", "ALLOW-FROM https://a.example", "foo"]))
    tokens = [token]
    if not draw(st.integers(0, 2)):
        tokens = [token] + draw(st.lists(S(["DENY", "SAMEORIGIN", "ALLOWALL", "foo", "NODENY"]), min_size=1, max_size=2))
        token = "DENY" if "DENY" in tokens else "SAMEORIGIN" if "SAMEORIGIN" in tokens else "foo"
    lines = [(b"X-Frame-Options", draw(S([", ", ",", " , "])).join(cased(draw, t) for t in tokens).encode())]
    if draw(st.integers(0, 3)) == 3:
        lines.append((b"X-Frame-Options", draw(S([b"DENY", b"SAMEORIGIN", b"foo"]))))
    return lines, "FRAME_OPTIONS", [("FRAME_OPTIONS_" + (token if token in ("DENY", "SAMEORIGIN") else "UNKNOWN"), (), [])], None, None


TOKENS = {
    "Cross-Origin-Embedder-Policy": ({"require-corp": "COEP_REQUIRE_CORP", "credentialless": "COEP_CREDENTIALLESS", "unsafe-none": "COEP_UNSAFE_NONE"}, "CROSS_ORIGIN_EMBEDDER_POLICY_BAD_VALUE", "COEP_|CROSS_ORIGIN_E"),
    "Cross-Origin-Opener-Policy": ({"same-origin": "COOP_SAME_ORIGIN", "same-origin-allow-popups": "COOP_SAME_ORIGIN_ALLOW_POPUPS", "unsafe-none": "COOP_UNSAFE_NONE"}, "CROSS_ORIGIN_OPENER_POLICY_BAD_VALUE", "COOP_|CROSS_ORIGIN_O"),
}


@st.composite
def cross_origin(draw):
    """COEP and COOP: Structured Field tokens, compared exactly; CORP: exact values."""
    name = draw(S([*TOKENS, "Cross-Origin-Resource-Policy"]))
    if name == "Cross-Origin-Resource-Policy":
        known = {"same-origin": "CORP_SAME_ORIGIN", "same-site": "CORP_SAME_SITE", "cross-origin": "CORP_CROSS_ORIGIN"}
        text = draw(st.one_of(S(list(known)), S(list(known)), S(["Same-Origin", "SAME-SITE", "same-origin2", "cross", "same-site, same-site", '"same-origin"', "same-origin;a", "none"])))
        return [(name.encode(), text.encode())], "CORP_|CROSS_ORIGIN_RES", [(known[text], (), []) if text in known else ("CROSS_ORIGIN_RESOURCE_POLICY_BAD_VALUE", v(value=text), [])], text, text
    known, bad, pattern = TOKENS[name]
    ro = draw(st.booleans())
    text = draw(st.one_of(S(list(known)), S(list(known)), S([t.title() for t in known] + [t.upper() for t in known] + [t + "2" for t in known] + ["Require-Corp", "Same-Origin", "none", "same-site", '"require-corp"', '"same-origin"', '"unsafe-none"', "?1", "1", ":YQ==:", "UNSAFE-NONE"])))
    ros = v(report_only=" (for reporting only)" if ro else "")
    value = text[1:-1] if text[0] == '"' else text
    want = (known[text], ros, []) if text in known else (bad, None, [])
    return [((name + ("-Report-Only" if ro else "")).encode(), (text + draw(S(["", "", ";p", "; p=1"]))).encode())], pattern, [want], None, value


@st.composite
def speculation(draw):
    """Speculation-Rules: strings."""
    base = draw(S([None, "https://base.example/", "http://base.example/"]))
    members, want = [], []
    for _ in range(draw(st.integers(1, 3))):
        text, scheme = draw(S([('"https://e.example/r"', "https"), ('"HTTP://e.example/r"', "http"), ('"http://e.example/r"', "http"), ('"/r"', None), ('"r.json"', None), ('"ftp://e.example/"', "ftp"), ('"wss://e.example/r"', "wss"), ('"WSS://e.example/r"', "wss"), ('"ws://e.example/r"', "ws"), ('"data:,a"', "data"), ('"//e.example/r"', None), ("tok", "type"), ("1", "type"), (":YQ==:", "type"), ("?1", "type")]))
        members.append(text + draw(S(["", ";p"])))
        scheme = scheme or (base.partition(":")[0] if base else "")
        if scheme == "type":
            want.append(("SPECULATION_RULES_BAD_TYPE", None, []))
        elif scheme not in ("", "https", "wss"):
            want.append(("SPECULATION_RULE_NOT_SECURE", v(url=text[1:-1]), []))
    return split_lines(draw, "Speculation-Rules", members), "SPECULATION_", want, base, None


def check_keywords(case, rec):
    lines, pattern, want, values, extra = case
    m = lib.resp(lines)
    if pattern == "SPECULATION_":
        m["base"] = values
    linter = lib.lint(m)
    name = lines[0][0].decode().lower()
    rec.label(*{w[0] for w in want})
    rec.nt(len(want) > 1 or any(re.search("UNKNOWN|BAD|EMPTY|UNSAFE|UNQUOTED|NOT_SECURE", w[0]) for w in want))
    if isinstance(values, (list, str)) and pattern != "SPECULATION_":
        same(linter.headers.parsed[name], values, f"value of {lines!r}")
    loose = {w[0] for w in want if w[1] is None}
    got = sorted([(a, None if a in loose else b, ch) for a, b, ch in tree(linter, pattern)], key=repr)
    same(got, sorted([(a, b, ch) for a, b, ch in want], key=repr), f"findings for {lines!r}")
    for n in linter.notes:
        if re.match(pattern, type(n).__name__):
            require("%(" not in str(n.summary) + str(n.detail), "%s isn't filled in", type(n).__name__)


def keywords():
    return st.one_of(referrer(), referrer(), clear(), clear(), nosniff(), frames(), cross_origin(), cross_origin(), speculation())


CHECKS = [
    Check("hsts", hsts, check_hsts, n=1800),
    Check("csp", csp, check_csp, n=1500),
    Check("permissions", permissions, check_permissions, n=1000),
    Check("keywords", keywords, check_keywords, n=2400),
]
