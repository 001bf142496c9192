"""C41: what a finding quotes is what the message says."""
import json
import html
import re

import http_sf
from hypothesis import strategies as st

from httplint.util import relative_time
from pbt import gen, lib, scenarios, spec
from pbt.core import Check, require, same

RULE = "a case is a message made around one or more faults, and the details each of them should be reported with; non-trivial when there is at least one such finding"
ASSUMPTIONS = ["a value that isn't of the right type is described by the names the library uses for the types of Structured Fields and JSON",
               "relative times are compared in the details as worded by httplint.util.relative_time, from independently computed seconds; the times check compares that wording with the seconds it stands for, to within half its unit",
               "what http_sf says is wrong with a Structured Field, and where, is quoted as it says it",
               "the texts about report-only policies, bad ranges and badly formed cookie dates are the published ones"]
S = st.sampled_from
WORD = st.builds(lambda a, b: a + b, S("abcdfghjkmnqrstuvwxyz"), st.text("abcdefghijklmnopqrstuvwxyz0123456789", max_size=8))
TEXT = st.one_of(WORD, WORD, st.text("abcXYZ019 .,:;<>&`*_[]()'!#-/", min_size=1, max_size=12).map(str.strip).filter(bool))
REPORT_ONLY = "\n\nBrowsers will only report violations of this policy, not enforce it."
SCENARIOS = []


def scenario(fn):
    SCENARIOS.append(st.composite(fn)())
    return fn


def q(text):
    return '"' + text.replace("\\", "\\\\").replace('"', '\\"') + '"'


def hdr(name, value):
    return (name.encode(), value.encode("latin-1"))


def num(n):
    return f"{n:,}"


def sf_item(draw, kinds=("int", "str", "token", "bool", "bytes", "decimal", "date")):
    """(text, value as printed, type name) of a Structured Field item."""
    kind = draw(S(list(kinds)))
    if kind == "int":
        n = draw(st.integers(-10**15 + 1, 10**15 - 1))
        return str(n), str(n), "int"
    if kind == "str":
        t = draw(TEXT)
        return q(t), t, "str"
    if kind == "token":
        t = draw(WORD)
        return t, t, "Token"
    if kind == "bool":
        b = draw(st.booleans())
        return "?1" if b else "?0", str(b), "bool"
    if kind == "bytes":
        return ":aGVsbG8=:", "b'hello'", "bytes"
    if kind == "date":
        n = draw(st.integers(0, 4 * 10**9))
        return f"@{n}", None, "datetime"
    if kind == "display":
        # anything can be in one: also what stands for something else elsewhere
        t = draw(st.one_of(TEXT, S(["\ue0000\ue001", "\ue0001\ue001", "x\ue0002\ue001y", "\ue000", "\u00e9", "\u65e5", "%s", "wzxhzdk:0", "klzzwxh:0001"])))
        return '%"' + "".join(chr(b) if 32 <= b < 127 and chr(b) not in '%"' else f"%{b:02x}" for b in t.encode("utf-8")) + '"', t, "DisplayString"
    n = draw(st.integers(-10**6, 10**6))
    return f"{n}.5", f"{n}.5", "Decimal"


# each of these returns a message, and for each kind of finding the details of those it should have

@scenario
def unnecessary(draw):
    name = draw(S(sorted(spec.UNNECESSARY) + ["tcn"]))
    wire = "".join(c.upper() if draw(st.booleans()) else c for c in name)
    return lib.resp([hdr(wire, draw(WORD))]), {"UNNECESSARY_HEADER": [{"header_name": wire}]}


@scenario
def duplicate_keys(draw):
    keys = draw(st.lists(WORD, min_size=1, max_size=5))
    name = draw(S(["CDN-Cache-Control", "Reporting-Endpoints", "Permissions-Policy", "Use-As-Dictionary"]))
    seen, want = set(), []
    parts = []
    for k in keys:
        params = draw(st.lists(S(["p", "q", "r"]), max_size=3))
        parts.append(k + "=1" + "".join(f";{p}={i}" for i, p in enumerate(params)))
        want += [{"key": p, "context": "parameter"} for i, p in enumerate(params) if p in params[:i]]
        if k in seen:
            want.append({"key": k, "context": "dictionary"})
        seen.add(k)
    return lib.resp([hdr(name, ", ".join(parts))]), {"DUPLICATE_KEY": want}


@scenario
def sf_errors(draw):
    name, kind = draw(S([("Use-As-Dictionary", "dictionary"), ("CDN-Cache-Control", "dictionary"), ("Reporting-Endpoints", "dictionary"), ("Cache-Status", "list"), ("Proxy-Status", "list"), ("Cross-Origin-Opener-Policy", "item"), ("Deprecation", "item"), ("Accept-Query", "list")]))
    value = draw(st.one_of(gen.field_value(name).map(lambda v: v.decode("latin-1")),
                           st.builds(lambda a, b, c: a + b + c, S(["", "a=1, ", "abcdefghijklmnopqrstuvwxyz=1, ", "a, ", "a  ,  b ; c  , "]), S(["%", '"', "a b", "1.", "?2", ":a", "(a", "a=", ";", "\x01", "1234567890123456"]), S(["", ", b=2", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"]))))
    text = value.strip(" \t")
    want = []
    try:
        http_sf.parse(text.encode("utf-8"), tltype=kind)
    except http_sf.StructuredFieldError as why:
        want = [{"problem": str(why), "context": ("pointed", text, getattr(why, "position", None))}]
    except Exception as why:  # pylint: disable=broad-except
        want = [{"problem": str(why), "context": ""}]
    return lib.resp([hdr(name, value)]), {"STRUCTURED_FIELD_PARSE_ERROR": want}


def pointed(got, text, at):
    """Whether what is shown is a part of the field with the character at fault pointed at."""
    if at is None:
        return str(got) == ""
    rows = str(got).split("\n    ")
    if len(rows) != 3 or rows[0].strip("\n") or rows[2].strip(" ") != "^":
        return False
    where = len(rows[2]) - 1
    plain = re.sub(r"\s", " ", text)
    return at >= where and plain.startswith(rows[1], at - where)


@scenario
def server_timing(draw):
    want = {"SERVER_TIMING_MISSING_DUR": [], "SERVER_TIMING_MISSING_DESC": [], "SERVER_TIMING_BAD_PARAM": []}
    parts = []
    for _ in range(draw(st.integers(1, 4))):
        name, how = draw(WORD), draw(S(["none", "good", "bad"]))
        part = name
        if how == "good":
            part += f";dur={draw(st.integers(0, 10**6))}.{draw(st.integers(0, 99))}"
        elif how == "bad":
            bad = draw(WORD)
            part += f";dur={bad}"
            want["SERVER_TIMING_BAD_PARAM"].append({"metric": name, "param": "dur", "value": bad})
        else:
            want["SERVER_TIMING_MISSING_DUR"].append({"metric": name})
        if draw(st.booleans()):
            part += f";desc={q(draw(WORD))}"
        else:
            want["SERVER_TIMING_MISSING_DESC"].append({"metric": name})
        parts.append(part)
    return lib.resp([hdr("Server-Timing", ", ".join(parts))]), want


@scenario
def origin(draw):
    first = draw(st.one_of(WORD, WORD.map(lambda w: w + "://"), WORD.map(lambda w: "http://" + w + "/" + w), WORD.map(lambda w: w + "://" + w + ":x")).filter(lambda w: w != "null"))
    bad = not re.fullmatch(r"[a-z][a-z0-9]*://[a-z0-9]*", first)
    more = draw(S(["", " http://b.example", " x y"]))
    return lib.req([hdr("Origin", first + more)]), {"BAD_ORIGIN_SYNTAX": [{"value": first}] if bad else [], "ORIGIN_MULTIPLE_VALUES": [{}] if more else []}


@scenario
def vary(draw):
    names = [f"{w}-{draw(S(['a', 'b']))}" for w in draw(st.lists(WORD, min_size=1, max_size=8))]
    many = draw(S([0, 0, 0, 2000]))
    distinct = set(names) | {f"n{i}" for i in range(many)}
    return lib.resp([hdr("Vary", ", ".join(names + [f"n{i}" for i in range(many)]))]), {"VARY_COMPLEX": [{"vary_count": str(len(distinct))}] if len(distinct) > 3 else []}


@scenario
def link_hints(draw):
    hints = {"preload": [], "preconnect": [], "dns-prefetch": []}
    bad, parts = [], []
    for _ in range(draw(st.integers(1, 5))):
        rels = draw(st.lists(S(["preload", "preconnect", "dns-prefetch", "next", "PreLoad", "icon", "https://x.example/Preload"]), min_size=1, max_size=3, unique_by=str.lower))
        host = draw(WORD)
        scheme = draw(S(["https", "http", "ftp", "data", ""]))
        target = f"{scheme}://{host}.example/" if scheme else f"/{host}"
        parts.append(f"<{target}>; rel={q(' '.join(rels))}")
        for rel in rels:
            if rel.lower() in hints:
                if scheme in ("ftp", "data"):
                    bad.append({"rel": rel.lower(), "link": target, "scheme": scheme})
                else:
                    hints[rel.lower()].append(target)
    present = {k: v for k, v in hints.items() if v}
    want = [{"hints": ", ".join(present), "detail_lines": "\n".join(f"- `{k}`: " + ", ".join(f"`{t}`" for t in v) for k, v in present.items())}] if present else []
    return lib.resp([hdr("Link", ", ".join(parts))]), {"LINK_RESOURCE_HINTS": want, "LINK_BAD_HINT_TARGET": bad}


@scenario
def content_range(draw):
    bad = draw(WORD)
    a, b, c = sorted(draw(st.lists(st.integers(0, 10**6), min_size=3, max_size=3, unique=True)))
    value, want = draw(S([
        (f"bytes {bad}-{b}/{c}", {"RANGE_INVALID_INTEGER": [{"value": bad}]}),
        (f"bytes {a}-{bad}/{c}", {"RANGE_INVALID_INTEGER": [{"value": bad}]}),
        (f"bytes {a}-{b}/{bad}", {"RANGE_INVALID_INTEGER": [{"value": bad}]}),
        (f"bytes {bad}/{c}", {"RANGE_MISSING_HYPHEN": [{"value": bad}]}),
        (f"bytes {a}-{b}/{c}", {"RANGE_INVALID_INTEGER": [], "RANGE_MISSING_HYPHEN": []})]))
    return lib.resp([hdr("Content-Range", value)], status=draw(S([206, 416, 200]))), want


@scenario
def permissions(draw):
    want = {k: [] for k in ("PERMISSIONS_POLICY_UNKNOWN_TOKEN", "PERMISSIONS_POLICY_QUOTED_KEYWORD", "PERMISSIONS_POLICY_INVALID_ITEM_TYPE", "PERMISSIONS_POLICY_INVALID_VALUE")}
    parts = {}
    for feature in draw(st.lists(st.one_of(WORD, S(["camera", "geolocation"])), min_size=1, max_size=4, unique=True)):
        how = draw(S(["list", "list", "list", "star", "other"]))
        if how == "star":
            parts[feature] = "*"
        elif how == "other":
            text, _, kind = sf_item(draw, ("int", "bool", "decimal", "str"))
            parts[feature] = text
            want["PERMISSIONS_POLICY_INVALID_VALUE"].append({"feature": feature})
        else:
            items = []
            for _ in range(draw(st.integers(0, 4))):
                word = draw(S(["self", "src", "*", "none", None, None]))
                if word:
                    items.append(q(word))
                    want["PERMISSIONS_POLICY_QUOTED_KEYWORD"].append({"value": word, "feature": feature})
                    continue
                text, shown, kind = sf_item(draw, ("int", "bool", "decimal", "token", "bytes"))
                items.append(text)
                if kind == "Token":
                    if shown not in ("self", "src"):
                        want["PERMISSIONS_POLICY_UNKNOWN_TOKEN"].append({"token": shown, "feature": feature})
                else:
                    want["PERMISSIONS_POLICY_INVALID_ITEM_TYPE"].append({"item": shown, "feature": feature})
            parts[feature] = "(" + " ".join(items) + ")"
    return lib.resp([hdr("Permissions-Policy", ", ".join(f"{k}={v}" for k, v in parts.items()))]), want


@scenario
def deprecation(draw):
    text, shown, kind = sf_item(draw)
    if kind == "datetime":
        return lib.resp([hdr("Deprecation", text)]), {"DEPRECATION_BAD_TYPE": []}
    want = [{"item_type": "Boolean False" if shown == "False" else kind}] if shown != "True" else []
    return lib.resp([hdr("Deprecation", text)]), {"DEPRECATION_BAD_TYPE": want}


@scenario
def csp(draw):
    only = draw(st.booleans())
    text = REPORT_ONLY if only else ""
    names = draw(st.lists(S(["script-src", "style-src", "object-src", "img-src", "font-src"]), min_size=1, max_size=4))
    parts, seen, dups = [], [], []
    lists = {"CSP_WIDE_OPEN": [], "CSP_UNSAFE_INLINE": [], "CSP_UNSAFE_EVAL": [], "CSP_HTTP_URI": []}
    for name in names:
        values = draw(st.lists(S(["'self'", "*", "'unsafe-inline'", "'Unsafe-Eval'", "http:", "https://a.example"]), max_size=3))
        parts.append(" ".join([name] + values))
        if name in seen:
            dups.append(name)
            continue
        seen.append(name)
        low = [v.lower() for v in values]
        if name in ("script-src", "style-src", "object-src") and "*" in low:
            lists["CSP_WIDE_OPEN"].append(name)
        for kind, source in (("CSP_UNSAFE_INLINE", "'unsafe-inline'"), ("CSP_UNSAFE_EVAL", "'unsafe-eval'"), ("CSP_HTTP_URI", "http:")):
            if source in low:
                lists[kind].append(name)
    want = {k: [{"directives_list": "\n".join(f"* `{n}`" for n in v), "report_only_text": text}] if v else [] for k, v in lists.items()}
    want["CSP_DUPLICATE_DIRECTIVE"] = [{"directives_list": "\n".join(f"* `{n}`" for n in dups), "report_only_text": text}] if dups else []
    want["CSP_DEPRECATED_REPORT_URI"], want["CSP_REPORT_TO_MISSING"] = [], []
    if draw(st.booleans()):
        parts.append("report-uri /" + draw(WORD))
        want["CSP_DEPRECATED_REPORT_URI"].append({"report_only_text": text})
    hs = []
    if draw(st.booleans()):
        endpoint = draw(WORD)
        parts.append("report-to " + endpoint)
        if draw(st.booleans()):
            hs.append(hdr("Reporting-Endpoints", f'{endpoint}="/a"'))
        else:
            hs.append(hdr("Reporting-Endpoints", f'{endpoint}x="/a"'))
            want["CSP_REPORT_TO_MISSING"].append({"endpoint": endpoint, "report_only_text": text})
    want["CONTENT_SECURITY_POLICY"] = [{"report_only": " for reporting only" if only else "", "report_only_text": text}]
    name = "Content-Security-Policy" + ("-Report-Only" if only else "")
    return lib.resp([hdr(name, "; ".join(parts))] + hs), want


@scenario
def isolation(draw):
    field, prefix, long, good = draw(S([
        ("Cross-Origin-Opener-Policy", "COOP", "CROSS_ORIGIN_OPENER_POLICY", {"same-origin": "COOP_SAME_ORIGIN", "same-origin-allow-popups": "COOP_SAME_ORIGIN_ALLOW_POPUPS", "unsafe-none": "COOP_UNSAFE_NONE"}),
        ("Cross-Origin-Embedder-Policy", "COEP", "CROSS_ORIGIN_EMBEDDER_POLICY", {"require-corp": "COEP_REQUIRE_CORP", "credentialless": "COEP_CREDENTIALLESS", "unsafe-none": "COEP_UNSAFE_NONE"})]))
    only = draw(st.booleans())
    short = " (for reporting only)" if only else ""
    bad = long + "_BAD_VALUE"
    want = {k: [] for k in [*good.values(), bad, prefix + "_REPORT_TO_MISSING"]}
    how = draw(S(["known", "known", "case", "other"]))
    if how == "other":
        text, shown, _ = sf_item(draw, ("int", "str", "token", "bool", "decimal"))
        if text not in good:
            want[bad].append({"value": shown, "report_only": short})
    else:
        text = draw(S(sorted(good)))
        if how == "case":
            text = draw(S([text.capitalize(), text.upper(), text.title()]))
            want[bad].append({"value": text, "report_only": short})
        else:
            want[good[text]].append({"report_only": short, "report_only_text": REPORT_ONLY if only else ""})
    if draw(st.booleans()):
        endpoint = draw(WORD)
        text += f";report-to={q(endpoint)}"
        want[prefix + "_REPORT_TO_MISSING"].append({"endpoint": endpoint, "report_only": short})
    return lib.resp([hdr(field + ("-Report-Only" if only else ""), text), hdr("Reporting-Endpoints", 'zz-1="/"')]), want


@scenario
def corp(draw):
    good = {"same-origin": "CORP_SAME_ORIGIN", "same-site": "CORP_SAME_SITE", "cross-origin": "CORP_CROSS_ORIGIN"}
    value = draw(st.one_of(S(sorted(good)), WORD, TEXT))
    want = {k: [] for k in [*good.values(), "CROSS_ORIGIN_RESOURCE_POLICY_BAD_VALUE"]}
    want[good.get(value, "CROSS_ORIGIN_RESOURCE_POLICY_BAD_VALUE")].append({"report_only_text": ""} if value in good else {"value": value})
    return lib.resp([hdr("Cross-Origin-Resource-Policy", value)]), want


@scenario
def cookies(draw):
    start = draw(st.integers(10**9, 2 * 10**9))
    want = {k: [] for k in ("SET_COOKIE_LIFETIME_TOO_LONG", "SET_COOKIE_HARDENED", "SET_COOKIE_NAME_DUP", "SET_COOKIE_BAD_DATE", "SET_COOKIE_UNKNOWN_ATTRIBUTE_VALUE", "SET_COOKIE_UNKNOWN_ATTRIBUTE", "SET_COOKIE_ATTRIBUTE_DUP", "SET_COOKIE_VALUE_TOO_LARGE")}
    hs, hardened, names = [], [], []
    for _ in range(draw(st.integers(1, 3))):
        name = draw(WORD)
        names.append(name)
        value, attrs = draw(WORD), []
        if draw(S([True] + [False] * 6)):
            value = "v" * draw(st.integers(1000, 5000))
            want["SET_COOKIE_VALUE_TOO_LARGE"].append((name, value))
        if draw(st.booleans()):
            attrs += ["Secure", "HttpOnly", "SameSite=" + draw(S(["Lax", "Strict", "lax"]))]
            hardened.append(name)
        how = draw(S(["", "max-age", "unknown", "value", "dup", "date", "time"]))
        if how == "max-age":
            age = draw(st.integers(34560000 - 5, 34560000 * 3))
            attrs.append(f"max-age={age}")
            if age > 34560000:
                want["SET_COOKIE_LIFETIME_TOO_LONG"].append({"cookie_name": name, "duration": str(relative_time(age, 0, 0))})
        elif how == "unknown":
            attr = "x-" + draw(WORD)
            attrs.append(draw(S(["", " "])) + attr + draw(S(["", "=1"])))
            want["SET_COOKIE_UNKNOWN_ATTRIBUTE"].append({"cookie_name": name, "attribute": attr})
        elif how == "value" and not attrs:
            other = draw(S(["SameSite", "samesite", "SAMESITE"]))
            bad = "x" + draw(WORD)
            attrs.append(f"{other}={bad}")
            want["SET_COOKIE_UNKNOWN_ATTRIBUTE_VALUE"].append({"cookie_name": name, "attribute_name": other, "attribute_value": bad})
        elif how == "dup":
            again = draw(S(["Path", "path", "PATH"]))
            attrs += ["path=/a", again + "=/b"]
            want["SET_COOKIE_ATTRIBUTE_DUP"].append({"cookie_name": name, "attribute": again})
        elif how == "date":
            parts = {"time": "08:49:37", "day": "06", "month": "Nov", "year": "2094"}
            missing = draw(st.lists(S(sorted(parts)), min_size=1, max_size=3, unique=True))
            # what is left out can't be mistaken for another part
            if "day" in missing and "year" not in missing:
                missing.append("year")
            attrs.append("expires=" + " ".join(v for k, v in parts.items() if k not in missing))
            want["SET_COOKIE_BAD_DATE"].append({"cookie_name": name, "why": "didn't have a: " + ",".join(k for k in parts if k in missing)})
        elif how == "time":
            bad = draw(S([("31 Nov 2090 08:49:37", "31 is out of range for day_of_month"), ("6 Nov 1600 08:49:37", "1600 is out of range for year"), ("6 Nov 2090 24:49:37", "24 is out of range for hour"),
                          ("6 Nov 2090 08:60:37", "60 is out of range for minute"), ("6 Nov 2090 08:49:61", "61 is out of range for second")]))
            attrs.append("Expires=" + bad[0])
            want["SET_COOKIE_BAD_DATE"].append({"cookie_name": name, "why": bad[1]})
        hs.append(hdr("Set-Cookie", "; ".join([f"{name}={value}"] + attrs)))
    want["SET_COOKIE_HARDENED"] = [{"cookie_names": ", ".join(f"`{n}`" for n in hardened)}] if hardened else []
    dups = sorted({n for n in names if names.count(n) > 1})
    want["SET_COOKIE_NAME_DUP"] = [{"cookie_names": ", ".join(dups)}] if dups else []
    want["SET_COOKIE_VALUE_TOO_LARGE"] = [{"cookie_name": n, "set_cookie_value_length": f"{num(len(v))} bytes"} for n, v in want["SET_COOKIE_VALUE_TOO_LARGE"] if len(v) > 128]
    return lib.resp(hs, start=float(start)), want


JSON_BAD = {"string": [1, None, True, [], {}], "integer": ["1", 1.5, True, None, []], "boolean": [0, 1, "true", None], "number": ["0.5", True, None, []], "list": [{}, "a", 1, None]}


@scenario
def nel(draw):
    want = {"NEL_BAD_TYPE": [], "NEL_MISSING_KEY": [], "NEL_BAD_VALUE": [], "NEL_REPORT_TO_MISSING": []}
    policies = []
    for _ in range(draw(st.integers(1, 2))):
        policy = {"report_to": draw(WORD), "max_age": draw(st.integers(0, 10**6))}
        for key, kind in (("report_to", "string"), ("max_age", "integer"), ("include_subdomains", "boolean"), ("success_fraction", "number"), ("failure_fraction", "number")):
            how = draw(S(["", "", "bad", "gone", "value"]))
            if how == "bad":
                policy[key] = draw(S(JSON_BAD[kind]))
                want["NEL_BAD_TYPE"].append({"key": key, "expected": kind})
            elif how == "gone":
                policy.pop(key, None)
                if key in ("report_to", "max_age"):
                    want["NEL_MISSING_KEY"].append({"key": key})
            elif how == "value" and kind == "number":
                policy[key] = draw(S([-1, 2, 1.5, -0.1]))
                want["NEL_BAD_VALUE"].append({"key": key, "details": ("has", "must be between 0.0 and 1.0")})
        if isinstance(policy.get("report_to"), str):
            want["NEL_REPORT_TO_MISSING"].append({"key": "report_to", "value": policy["report_to"]})
        policies.append(json.dumps(policy))
    return lib.resp([hdr("NEL", ", ".join(policies)), hdr("Reporting-Endpoints", 'zz-1="/"')]), want


@scenario
def report_to(draw):
    want = {"REPORT_TO_BAD_TYPE": [], "REPORT_TO_MISSING_KEY": []}
    group = {}
    how = draw(S(["ok", "bad", "gone"]))
    if how == "ok":
        group["max_age"] = draw(st.integers(0, 9))
    elif how == "bad":
        group["max_age"] = draw(S(JSON_BAD["integer"]))
        want["REPORT_TO_BAD_TYPE"].append({"key": "max_age", "expected": "integer"})
    else:
        want["REPORT_TO_MISSING_KEY"].append({"key": "max_age"})
    how = draw(S(["ok", "ok", "bad", "gone"]))
    if how == "bad":
        group["endpoints"] = draw(S(JSON_BAD["list"]))
        want["REPORT_TO_BAD_TYPE"].append({"key": "endpoints", "expected": "list"})
    elif how == "gone":
        want["REPORT_TO_MISSING_KEY"].append({"key": "endpoints"})
    else:
        group["endpoints"] = []
        for _ in range(draw(st.integers(1, 3))):
            url = draw(S(["ok", "bad", "gone"]))
            if url == "ok":
                group["endpoints"].append({"url": "/a"})
            elif url == "gone":
                group["endpoints"].append({"priority": 1})
                want["REPORT_TO_MISSING_KEY"].append({"key": "endpoints[].url"})
            else:
                group["endpoints"].append({"url": draw(S(JSON_BAD["string"]))})
                want["REPORT_TO_BAD_TYPE"].append({"key": "endpoints[].url", "expected": "string"})
    return lib.resp([hdr("Report-To", json.dumps(group))]), want


@scenario
def groups(draw):
    name, kind = draw(S([("Cache-Groups", "CACHE_GROUPS_BAD_TYPE"), ("Cache-Group-Invalidation", "CACHE_GROUP_INVALIDATION_BAD_TYPE")]))
    items = [sf_item(draw, ("int", "str", "token", "bool", "bytes", "decimal")) for _ in range(draw(st.integers(1, 4)))]
    bad = sorted({t for _, _, t in items if t != "str"})
    method = draw(S([b"GET", b"HEAD", b"POST", b"OPTIONS", b"DELETE"]))
    want = {kind: [{"expected": "string", "got": ", ".join(bad)}] if bad else []}
    if name != "Cache-Groups":
        want["CACHE_GROUP_INVALIDATION_IGNORED"] = [{"method": method.decode()}] if method in (b"GET", b"HEAD", b"OPTIONS") else []
    return lib.resp([hdr(name, ", ".join(t for t, _, _ in items))], related=lib.req(method=method)), want


@scenario
def cdn(draw):
    text, _, kind = sf_item(draw, ("int", "str", "token", "bool", "decimal"))
    name, expected = draw(S([("no-store", "no value"), ("must-revalidate", "no value"), ("public", "no value"), ("max-age", "integer"), ("s-maxage", "integer"), ("stale-if-error", "integer"), ("private", "a string"), ("no-cache", "a string")]))
    ok = (expected == "no value" and text == "?1") or (expected == "integer" and kind == "int") or (expected == "a string" and (kind == "str" or text == "?1"))
    return lib.resp([hdr("CDN-Cache-Control", f"{name}={text}")]), {"BAD_CDN_CC_TYPE": [] if ok else [{"bad_directive": name, "expected_type": ("has", expected)}]}


@scenario
def endpoints(draw):
    parts, want = {}, {"BAD_REPORTING_ENDPOINT_SYNTAX": [], "ENDPOINT_NOT_SECURE": []}
    for name in draw(st.lists(WORD, min_size=1, max_size=3, unique=True)):
        if draw(st.booleans()):
            url = f"{draw(S(['http', 'https', 'wss', 'ftp']))}://{draw(WORD)}.example/"
            parts[name] = q(url)
            if not url.startswith(("https:", "wss:")):
                want["ENDPOINT_NOT_SECURE"].append({"name": name, "url": url})
        else:
            parts[name], shown, kind = sf_item(draw, ("int", "token", "bool", "decimal"))
            want["BAD_REPORTING_ENDPOINT_SYNTAX"].append({"name": name, "value": shown, "found_type": kind})
    return lib.resp([hdr("Reporting-Endpoints", ", ".join(f"{k}={v}" for k, v in parts.items()))], base="https://example.com/"), want


@scenario
def speculation(draw):
    parts, want = [], {"SPECULATION_RULES_BAD_TYPE": [], "SPECULATION_RULE_NOT_SECURE": []}
    for _ in range(draw(st.integers(1, 3))):
        if draw(st.booleans()):
            url = f"{draw(S(['http', 'https', 'wss', 'ftp']))}://{draw(WORD)}.example/"
            parts.append(q(url))
            if not url.startswith(("https:", "wss:")):
                want["SPECULATION_RULE_NOT_SECURE"].append({"url": url})
        else:
            text, shown, kind = sf_item(draw, ("int", "token", "bool", "decimal"))
            parts.append(text)
            want["SPECULATION_RULES_BAD_TYPE"].append({"value": shown, "found_type": kind})
    return lib.resp([hdr("Speculation-Rules", ", ".join(parts))], base="https://example.com/"), want


REQUEST_ONLY, RESPONSE_ONLY = ["max-stale", "min-fresh", "only-if-cached"], ["must-revalidate", "public", "private", "s-maxage", "immutable", "proxy-revalidate", "must-understand"]


@scenario
def cache_control(draw):
    kind = draw(S(["request", "response"]))
    want = {"CC_MISCAP": [], "CC_WRONG_MESSAGE": [], "CC_BAD_VALUE_TYPE": [], "CC_SHOULD_NOT_HAVE_VALUE": []}
    parts = []
    for name in draw(st.lists(S(REQUEST_ONLY + RESPONSE_ONLY + ["max-age", "no-store"]), min_size=1, max_size=3, unique=True)):
        wire = draw(S([name, name, name.title(), name.upper()]))
        number = name in ("max-stale", "min-fresh", "s-maxage", "max-age")
        value = "=" + str(draw(st.integers(0, 100))) if number else ""
        bad = draw(S([False, False, True]))
        if bad and number:
            word = draw(WORD)
            value = "=" + word
            want["CC_BAD_VALUE_TYPE"].append({"directive": name, "expected_type": ("has", "integer"), "value": word})
        elif bad and name != "private":
            value = "=" + draw(WORD)
            want["CC_SHOULD_NOT_HAVE_VALUE"].append({"directive": name})
        if wire != name:
            want["CC_MISCAP"].append({"directive": wire, "directive_lower": name})
        if not (bad and number) and (name in RESPONSE_ONLY if kind == "request" else name in REQUEST_ONLY):
            want["CC_WRONG_MESSAGE"].append({"directive": name, "other_message": "response" if kind == "request" else "request"})
        parts.append(wire + value)
    return lib.msg(kind, [hdr("Cache-Control", ", ".join(parts))]), want


@scenario
def accept_query(draw):
    items = [sf_item(draw, ("int", "bool", "decimal", "token")) for _ in range(draw(st.integers(1, 3)))]
    return lib.resp([hdr("Accept-Query", ", ".join(t for t, _, _ in items))]), {
        "ACCEPT_QUERY_BAD_TYPE": [{"value": shown} for _, shown, kind in items if kind != "Token"], "ACCEPT_QUERY_BAD_SYNTAX": [{"value": shown} for _, shown, kind in items if kind == "Token"]}


@scenario
def statuses(draw):
    name, known = draw(S([("Cache-Status", {"ttl": "int", "key": "str", "fwd-status": "int", "detail": "str"}), ("Proxy-Status", {"next-hop": "str", "rcode": "str", "status-code": "int", "details": "str"})]))
    prefix = name.upper().replace("-", "_")
    want = {prefix + "_UNKNOWN_PARAM": [], prefix + "_BAD_PARAM_VAL": []}
    members, shown = [], []
    for _ in range(draw(st.integers(1, 3))):
        who, whose = draw(st.one_of(WORD.map(lambda w: (w, w)), TEXT.map(lambda t: (q(t), t))))
        text, says = who, []
        for param in draw(st.lists(st.one_of(WORD.map(lambda w: "x-" + w), S(sorted(known))), max_size=3, unique=True)):
            value, printed, kind = sf_item(draw, ("int", "str", "token", "decimal", "display"))
            text += f";{param}={value}"
            says.append(printed)
            if param not in known:
                want[prefix + "_UNKNOWN_PARAM"].append({"param": param})
            elif kind != known[param] and not (kind == "Token" and param in ("detail", "details", "next-hop")):
                want[prefix + "_BAD_PARAM_VAL"].append({"param": param, "value": printed})
        members.append(text)
        shown.append([whose] + says)

    want[prefix] = [{"status": ("code", [part for who in shown for part in who])}]
    return lib.resp([hdr(name, ", ".join(members))]), want


def code(text):
    """Only what stays the same when text is put in a code span."""
    return re.sub(r"[^A-Za-z0-9]", "", re.sub(r"&[a-z]+;|&#\d+;", "", str(text)))


@scenario
def dictionaries(draw):
    expected = {"match": "str", "id": "str", "type": "str", "ttl": "int"}
    key = draw(S(sorted(expected) + ["match-dest"]))
    text, _, kind = sf_item(draw, ("int", "str", "bool", "decimal", "bytes"))
    inner = draw(S([True, False, False]))
    if inner:
        text = f"({text})"
    want = {"USE_AS_DICTIONARY_BAD_TYPE": [], "USE_AS_DICTIONARY_BAD_MATCH_DEST": []}
    if key == "match-dest":
        if kind != "str":
            want["USE_AS_DICTIONARY_BAD_MATCH_DEST"].append({"got": "list" if inner else kind})
    elif inner or kind != expected[key]:
        want["USE_AS_DICTIONARY_BAD_TYPE"].append({"param": key, "expected": expected[key], "got": "Inner List" if inner else kind})
    return lib.resp([hdr("Use-As-Dictionary", f"{key}={text}")]), want


@scenario
def dictionary(draw):
    text, _, kind = sf_item(draw, ("int", "str", "token", "bool", "bytes", "decimal"))
    return lib.req([hdr("Available-Dictionary", text)]), {"AVAILABLE_DICTIONARY_BAD_TYPE": [] if kind == "bytes" else [{"got": kind}]}


@scenario
def server(draw):
    value = "/".join([draw(WORD)] * 2) + "".join(f" {draw(WORD)}" for _ in range(draw(st.integers(0, 30)))) + "x" * draw(st.integers(0, 2000))
    return lib.resp([hdr("Server", value)]), {"SERVER_TOO_LONG": [{"server_string": value, "server_length": f"{num(len(value))} bytes"}] if len(value) > 64 else []}


@scenario
def ranges(draw):
    a = draw(st.integers(0, 1000))
    value, says = draw(S([(f"bytes {a}", "equals sign"), (f"by tes={a}-", "unit must be a token"), (f"bytes={a}", "must contain a hyphen"), (f"bytes=x{a}-", "first position in the range must be an integer"),
                          (f"bytes={a}-y", "last position in the range must be an integer"), ("bytes=-", "at least one of the first or last positions"), (f"bytes={a}-", None),
                          (f"bytes={a}-{a + 1}, {a}", "must contain a hyphen"), (f"bytes={a}-, -", "at least one of the first or last positions")]))
    return lib.req([hdr("Range", value)]), {"RANGE_BAD_SYNTAX": [{"problem": ("has", says)}] if says else []}


@scenario
def single_quotes(draw):
    name, lead = draw(S([("Content-Type", "text/html"), ("Accept", "text/html"), ("Content-Disposition", "attachment"), ("Link", "</a>"), ("Server-Timing", "a")]))
    parts, want = [], {"PARAM_SINGLE_QUOTED": [], "PARAM_REPEATS": [], "PARAM_STAR_CHARSET": []}
    seen = set()
    for _ in range(draw(st.integers(1, 4))):
        key = "x" + draw(S("abc"))
        if key in seen:
            want["PARAM_REPEATS"].append({"param": key})
        seen.add(key)
        value = draw(WORD)
        wire = draw(S([key, key.upper()]))
        if draw(st.booleans()):
            want["PARAM_SINGLE_QUOTED"].append({"param": key, "param_val": f"'{value}'", "param_val_unquoted": value})
            value = f"'{value}'"
        parts.append(f"{wire}={value}")
    if draw(st.booleans()):
        enc = draw(S(["iso-8859-1", "US-ASCII", "x" + draw(WORD)]))
        parts.append(f"xd*={enc}'en'a")
        want["PARAM_STAR_CHARSET"].append({"param": "xd*", "enc": enc.lower()})
    return lib.msg("request" if name == "Accept" else "response", [hdr(name, "; ".join([lead] + parts))]), want


@scenario
def not_allowed(draw):
    method = draw(S([b"GET", b"HEAD", b"DELETE", b"CONNECT", b"TRACE", b"POST", b"PUT", b"get"]))
    body = draw(st.binary(max_size=5))
    if draw(st.booleans()):
        return lib.req([], method=method, uri=b"http://example.com/" if method != b"CONNECT" else b"example.com:443", chunks=[body]), {
            "REQUEST_CONTENT_NOT_DEFINED": [{"method": method.decode()}] if body and method in (b"GET", b"HEAD", b"DELETE", b"CONNECT", b"TRACE") else []}
    status = draw(S([200, 204, 304, 404]))
    return lib.resp([], status=status, chunks=[body]), {"CONTENT_NOT_ALLOWED": [{"message": "Response"}] if body and status == 304 else []}


@scenario
def bad_json(draw):
    good = json.dumps({draw(WORD): draw(WORD)})
    cut = draw(st.integers(1, len(good) - 1))
    bad = draw(S([good[:cut], good + "x", "{" + good, good.replace(":", "="), "'" + draw(WORD) + "'", good]))
    try:
        json.loads(f"[{bad.strip()}]")  # padding of the line isn't part of it
        want = []
    except ValueError as why:
        want = [{"error": str(why)}]
    return lib.resp([hdr(draw(S(["NEL", "Report-To"])), bad)]), {"BAD_JSON": want}


@scenario
def charsets(draw):
    text = draw(S(["Привет, как дела? Это обычный русский текст, достаточно длинный для определения кодировки.", "日本語の文章です。これは十分に長い文章なので、文字コードを判定できるはずです。", "Überraschung! Die Größe der Straße überprüfen, müssen wir für später."]))
    body = text.encode(draw(S(["utf-8", "utf-8", "utf-16"])))
    declared = draw(S(["ascii", "US-ASCII", "shift_jis", "Shift_JIS", "euc-jp", "iso-8859-1", "ISO-8859-5", "utf-8", "koi8-r", "windows-1251"]))
    if draw(st.booleans()):
        return lib.resp([hdr("Content-Type", f"text/plain; charset={declared}")], chunks=[body]), {
            "CHARSET_UNDECODABLE?": {"declared_charset": ("lower", declared.lower())}, "CHARSET_MISMATCH?": {"declared_charset": ("lower", declared.lower()), "detected_charset": ("charset or", "")}}
    kind = draw(S(["application/json", "application/manifest+json", "application/ld+json", "text/event-stream"]))
    wire = draw(S([kind, kind.upper()]))
    return lib.resp([hdr("Content-Type", wire)], chunks=[body if draw(st.booleans()) else text.encode("cp1251", "replace")]), {
        "CHARSET_IMPLICIT_MISMATCH?": {"media_type": kind, "declared_charset": ("lower", "utf-8"), "detected_charset": ("charset or", "")},
        "CHARSET_UNDECODABLE?": {"declared_charset": ("lower", "utf-8"), "detected_charset": ("charset or", "unknown")}}


def known_charset(name):
    try:
        "".encode(str(name))
        return True
    except LookupError:
        return False


def agrees(got, want):
    """Whether a detail is as wanted: the same text, or as told by a pair or triple."""
    got = str(got)
    if not isinstance(want, tuple):
        return got == str(want)
    if want[0] == "has":
        return want[1] in got
    if want[0] == "lower":
        return got.lower() == want[1]
    if want[0] == "charset or":
        return got == want[1] or known_charset(got)
    if want[0] == "pointed":
        return pointed(got, want[1], want[2])
    shown, at = code(got), 0  # each of them said, in order
    for part in want[1]:
        at = shown.find(code(part), at)
        if at < 0:
            return False
        at += len(code(part))
    return True


def check(case, rec):
    m, want = case
    linter = lib.lint(m)
    for kind, wanted in want.items():
        optional = kind.endswith("?")
        found = [n for n in lib.all_notes(linter.notes) if type(n).__name__ == kind.rstrip("?")]
        if optional:
            wanted = [wanted] * len(found)
        same(len(found), len(wanted), f"number of {kind} findings", message=m["headers"], found=[lib.plain(dict(n.vars)) for n in found], wanted=wanted)
        if wanted:
            rec.nt()
            rec.label(kind)
        for n, details in zip(found, wanted):
            for key, value in details.items():
                require(key in n.vars and agrees(n.vars[key], value), f"{kind} should say what the message says", detail=key, got=str(n.vars.get(key)), want=value, message=m["headers"])


UNITS = {"second": 1, "minute": 60, "hour": 3600, "day": 86400, "week": 604800, "month": 30 * 86400, "year": 365 * 86400}


@st.composite
def times(draw):
    """(seconds, what they're said in)"""
    secs = draw(st.one_of(st.integers(1, 200), st.integers(1, 10**5), st.integers(1, 10**8), S([k * u + d for u in UNITS.values() for k in (1, 2, 3, 11, 12) for d in (-1, 0, 1)])))
    return max(1, secs), draw(S(["ahead", "behind", "age", "modified", "cookie", "fresh", "stale"]))


def check_times(case, rec):
    """A length of time is said in the nearest whole unit, on the right side of now."""
    secs, what = case
    now = 1309770486
    date = lambda t: scenarios.imf(t)  # noqa: E731
    if what in ("ahead", "behind"):
        secs += 5
        kind, key, after = "DATE_INCORRECT", "clock_skew_string", what
        hs = [(b"Date", date(now + (secs if what == "ahead" else -secs)))]
    elif what == "age":
        kind, key, after = "CURRENT_AGE", "age", ""
        hs = [(b"Date", date(now)), (b"Age", str(secs).encode())]
    elif what == "modified":
        kind, key, after = "LM_PRESENT", "last_modified_string", "ago"
        hs = [(b"Date", date(now)), (b"Last-Modified", date(now - secs))]
    elif what == "cookie":
        secs += 34560000
        kind, key, after = "SET_COOKIE_LIFETIME_TOO_LONG", "duration", ""
        hs = [(b"Set-Cookie", b"a=b; Expires=" + date(now + secs))]
    else:
        kind, key, after = ("FRESHNESS_FRESH", "freshness_left", "") if what == "fresh" else ("FRESHNESS_STALE_ALREADY", "current_age", "")
        hs = [(b"Date", date(now)), (b"Age", str(7 if what == "fresh" else secs).encode()), (b"Cache-Control", b"max-age=%d" % (secs + 7 if what == "fresh" else secs // 2))]
    linter = lib.lint(lib.resp(hs, start=float(now)))
    notes = [n for n in lib.all_notes(linter.notes) if type(n).__name__ == kind]
    same(len(notes), 1, f"{kind} findings for {hs!r}", found=lib.names(linter))
    said = str(notes[0].vars[key])
    require(said in str(notes[0].summary) + str(notes[0].detail), "%s doesn't say %r", kind, said)
    match = re.fullmatch("([0-9,]+) ([a-z]+?)s?(?: (ago|ahead|behind))?", said)
    require(match is not None, "%s says %r for %s seconds", kind, said, secs)
    number, unit, side = int(match[1].replace(",", "")), UNITS[match[2]], match[3] or ""
    same(side, after, f"side of now in {said!r}")
    require(abs(number * unit - secs) <= unit * 0.5, "%s says %r for %s seconds", kind, said, secs)
    rec.nt(unit > 1 or bool(after))
    rec.label(what, match[2])


CASES = st.one_of(*SCENARIOS)
@st.composite
def shown(draw):
    name = draw(S(["Cache-Status", "Proxy-Status"]))
    return {"name": name, "params": draw(st.lists(st.tuples(WORD.map(lambda w: "x-" + w), st.composite(lambda d: sf_item(d, ("str", "token", "display", "display")))()), min_size=1, max_size=4, unique_by=lambda p: p[0]))}


def check_shown(case, rec):
    """What a status field says is in what is displayed, whatever it is."""
    linter = lib.lint(lib.resp([hdr(case["name"], "who" + "".join(f";{k}={text}" for k, (text, _, _) in case["params"]))]))
    note = [n for n in linter.notes if type(n).__name__ == case["name"].upper().replace("-", "_")]
    same(len(note), 1, "findings that describe the field", found=lib.names(linter))
    squeeze = lambda t: re.sub(r"[\s`]", "", t)  # noqa: E731
    text = squeeze(html.unescape(re.sub("<[^>]*>", "", str(note[0].detail))))
    at = 0
    for k, (_, said, _) in case["params"]:
        at = text.find(squeeze(k + ":" + said), at)
        require(at >= 0, "%s doesn't show %s: %r in its place", case["name"], k, said, shown=str(note[0].detail))
    rec.nt(any(not v.isalnum() for _, (_, v, _) in case["params"]))


CHECKS = [Check("shown", shown, check_shown, n=1000, note="what is displayed for status fields with any text in them"),
          Check("times", times, check_times, n=2500, thorough=40000, note="lengths of time in findings, against the seconds they stand for"),
          Check("details", lambda: CASES, check, n=12000, thorough=120000)]
