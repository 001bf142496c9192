"""C32: JSON-valued fields."""
import collections
import json
import re

from hypothesis import strategies as st

from pbt import gen, lib
from pbt.core import Check, Skip, require, same

RULE = "a case is the lines of a NEL or Report-To field, written as JSON by our own serialiser or edited text; non-trivial when a value is an object or the text isn't JSON"
ASSUMPTIONS = ["lines are joined with commas and bracketed, as the JSON field draft says, so a value can span lines; a field that is wholly empty isn't judged",
               "what is nested more deeply than a few dozen levels is judged only as JSON or not; what is too deep for Python's parser may be reported as not JSON", "integers have fewer than 4000 digits", "whether an integral number such as 1.0 is an integer isn't judged; of repeated member names the last counts",
               "names of reporting endpoints are C28's"]
S = st.sampled_from
FIELDS = ("NEL", "Report-To")
NUMBER = re.compile(r"-?(?:0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?")
STRING = re.compile(r'"(?:[^"\\\x00-\x1f]|\\["\\/bfnrt]|\\u[0-9a-fA-F]{4})*"')


class Bad(Exception):
    pass


def parse(text):
    """An RFC 8259 parser."""
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(text) and text[pos] in " \t\r\n":
            pos += 1

    def expect(c):
        nonlocal pos
        if text[pos:pos + 1] != c:
            raise Bad(f"{c} at {pos}")
        pos += 1

    def string():
        nonlocal pos
        m = STRING.match(text, pos)
        if not m:
            raise Bad(f"string at {pos}")
        pos = m.end()
        raw, out, i = m.group(0)[1:-1], [], 0
        while i < len(raw):
            if raw[i] != "\\":
                out.append(raw[i])
                i += 1
            elif raw[i + 1] == "u":
                u = int(raw[i + 2:i + 6], 16)
                i += 6
                if 0xd800 <= u < 0xdc00 and re.match(r"\\u[dD][c-fC-F][0-9a-fA-F]{2}", raw[i:]):
                    u = 0x10000 + ((u - 0xd800) << 10) + int(raw[i + 2:i + 6], 16) - 0xdc00
                    i += 6
                out.append(chr(u))
            else:
                out.append({"b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}.get(raw[i + 1], raw[i + 1]))
                i += 2
        return "".join(out)

    def value(depth):
        nonlocal pos
        if depth > 90:
            raise Skip
        ws()
        c = text[pos:pos + 1]
        if c == '"':
            out = string()
        elif c == "{":
            out = {}
            pos += 1
            ws()
            if text[pos:pos + 1] == "}":
                pos += 1
            else:
                while True:
                    ws()
                    k = string()
                    ws()
                    expect(":")
                    out[k] = value(depth + 1)
                    if text[pos:pos + 1] != ",":
                        break
                    pos += 1
                expect("}")
        elif c == "[":
            out = []
            pos += 1
            ws()
            if text[pos:pos + 1] == "]":
                pos += 1
            else:
                while True:
                    out.append(value(depth + 1))
                    if text[pos:pos + 1] != ",":
                        break
                    pos += 1
                expect("]")
        else:
            for word, v in (("true", True), ("false", False), ("null", None)):
                if text.startswith(word, pos):
                    pos += len(word)
                    out = v
                    break
            else:
                m = NUMBER.match(text, pos)
                if not m:
                    raise Bad(f"value at {pos}")
                pos = m.end()
                out = float(m.group(0)) if m.group(1) or m.group(2) else int(m.group(0))
        ws()
        return out

    out = value(0)
    if pos != len(text):
        raise Bad(f"more at {pos}")
    return out


def typed(v):
    if isinstance(v, dict):
        return ("object", sorted((k, typed(x)) for k, x in v.items()))
    if isinstance(v, list):
        return ("array", [typed(x) for x in v])
    if isinstance(v, str):
        return ("string", str(v))
    return (type(v).__name__, repr(v))


# ------------------------------------------------------------------ what is reported
def number(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def integer(v):
    if isinstance(v, float) and v == v and v not in (float("inf"), float("-inf")) and v == int(v):
        raise Skip
    return isinstance(v, int) and not isinstance(v, bool)


def nel(values):
    out = []
    for p in values:
        if not isinstance(p, dict):
            out.append(("NEL_BAD_STRUCTURE", None))
            continue
        for key, ok, needed in (("report_to", lambda v: isinstance(v, str), True), ("max_age", integer, True), ("include_subdomains", lambda v: isinstance(v, bool), False),
                                ("success_fraction", number, False), ("failure_fraction", number, False)):
            if key not in p:
                if needed:
                    out.append(("NEL_MISSING_KEY", key))
            elif not ok(p[key]):
                out.append(("NEL_BAD_TYPE", key))
            elif key.endswith("fraction") and (p[key] < 0 or p[key] > 1):
                out.append(("NEL_BAD_VALUE", key))
    return out


def report_to(values):
    out = []
    for g in values:
        if not isinstance(g, dict):
            out.append(("REPORT_TO_BAD_STRUCTURE", None))
            continue
        if "max_age" not in g:
            out.append(("REPORT_TO_MISSING_KEY", "max_age"))
        elif not integer(g["max_age"]):
            out.append(("REPORT_TO_BAD_TYPE", "max_age"))
        if "endpoints" not in g:
            out.append(("REPORT_TO_MISSING_KEY", "endpoints"))
        elif not isinstance(g["endpoints"], list):
            out.append(("REPORT_TO_BAD_TYPE", "endpoints"))
        else:
            for e in g["endpoints"]:
                if not isinstance(e, dict):
                    out.append(("REPORT_TO_BAD_STRUCTURE", None))
                elif "url" not in e:
                    out.append(("REPORT_TO_MISSING_KEY", "endpoints[].url"))
                elif not isinstance(e["url"], str):
                    out.append(("REPORT_TO_BAD_TYPE", "endpoints[].url"))
    return out


MODEL = {"NEL": nel, "Report-To": report_to}


def check(case, rec):
    field, lines = case
    lines = [line.strip(" \t") for line in lines]
    if not any(lines):
        raise Skip
    try:
        want = parse("[" + ", ".join(lines) + "]")
    except Bad:
        want = None
    expected = [] if want is None else MODEL[field](want)
    linter = lib.lint(lib.resp([(field.encode(), line.encode("latin-1")) for line in lines]))
    got = linter.headers.parsed.get(field.lower(), "absent")
    notes = [n for n in linter.notes if n.subject == "field-" + field.lower()]
    bad = [n for n in notes if type(n).__name__ == "BAD_JSON"]
    if want is None:
        rec.label("bad-json")
        rec.nt()
        same(got, None, "value of a field that isn't JSON")
        same(len(bad), 1, f"BAD_JSON notes for {lines!r}")
        require(bad[0].vars.get("error"), "no parsing error given")
    else:
        rec.label("json", *{type(v).__name__ for v in want}, *[n for n, _ in expected])
        rec.nt(any(isinstance(v, dict) for v in want))
        same(len(bad), 0, f"BAD_JSON notes for {lines!r}")
        same(typed(got), typed(want), f"value of {field}: {lines!r}")
    found = collections.Counter((type(n).__name__, n.vars.get("key")) for n in notes if re.match(r"NEL_(BAD|MISSING)|REPORT_TO_(BAD|MISSING)", type(n).__name__))
    same(found, collections.Counter(expected), f"what is reported for {field}: {lines!r}")
    for n in notes:
        str(n.summary), str(n.detail)


# ------------------------------------------------------------------ generators
INTS = st.one_of(st.integers(-5, 5), st.integers(0, 10 ** 9), S([86400, 2592000, 2 ** 31, 2 ** 53 + 1, 2 ** 64, 10 ** 30, -1, 0, 1]))
FLOATS = S(["0.0", "1.0", "0.5", "1.5", "-0.5", "1e-3", "1.0000001", "-0.0", "-0", "1E2", "2e400", "-1e-400", "0.999999", "5e-1", "10E-1", "0e0", "1e+0"])
CHARS = st.text(st.one_of(S('ab"\\/{}[]:, \'`<&%é\n\t\b\x00\x7f€\U0001f600'), st.characters(max_codepoint=0x2fff, exclude_categories=["Cs"])), max_size=6)


@st.composite
def string(draw, text=None):
    text = draw(st.one_of(CHARS, S(["a", "default", "endpoint-1", "", "https://example.com/r", "[", "true", "NaN", "a, b"]))) if text is None else text
    out = ""
    for c in text:
        if c in '"\\' or c < " ":
            short = {'"': '\\"', "\\": "\\\\", "\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(c)
            out += short if short and draw(st.integers(0, 3)) else f"\\u{ord(c):04x}"
        elif c == "/" and draw(st.integers(0, 3)) == 0:
            out += "\\/"
        elif ord(c) > 0xff or draw(st.integers(0, 15)) == 15:
            out += "".join(f"\\u{int.from_bytes(c.encode('utf-16-be')[i:i + 2], 'big'):04{draw(S('xX'))}}" for i in range(0, len(c.encode("utf-16-be")), 2))
        else:
            out += c
    return '"' + out + '"'


WS = S(["", "", "", " ", "\t", "  "])
SCALAR = st.one_of(INTS.map(str), FLOATS, S(["true", "false", "null"]), string())


@st.composite
def obj(draw, members):
    out = [draw(WS) + k + draw(WS) + ":" + draw(WS) + v + draw(WS) for k, v in members]
    return "{" + (",".join(out) or draw(WS)) + "}"


@st.composite
def arr(draw, values):
    return "[" + (",".join(draw(WS) + v + draw(WS) for v in values) or draw(WS)) + "]"


@st.composite
def anything(draw, depth=2):
    kind = draw(st.integers(0, 5)) if depth else 0
    if kind < 3:
        return draw(SCALAR)
    if kind == 3:
        return draw(arr(draw(st.lists(anything(depth - 1), max_size=3))))
    return draw(obj([(draw(string()), draw(anything(depth - 1))) for _ in range(draw(st.integers(0, 3)))]))


@st.composite
def record(draw, keys):
    """An object with most of these members, mostly of the right type."""
    members = []
    for key, good in keys:
        for _ in range(draw(S([1, 1, 1, 1, 0, 2]))):
            name = draw(S([key] * 9 + [key.upper(), key.replace("_", "-"), key + " ", key[:-1]]))
            members.append((draw(string(name)), draw(st.one_of(good, good, good, SCALAR, anything()))))
    if draw(st.integers(0, 3)) == 0:
        members.append((draw(string()), draw(anything())))
    return draw(obj(draw(st.permutations(members))))


BOOL = S(["true", "false"])
FRACTION = st.one_of(FLOATS, S(["0", "1", "2", "-1", "0.25", "1.01", "100"]))
POLICY = record([("report_to", string()), ("max_age", INTS.map(str)), ("include_subdomains", BOOL), ("success_fraction", FRACTION), ("failure_fraction", FRACTION)])
ENDPOINT = record([("url", string()), ("priority", INTS.map(str))])


@st.composite
def endpoints(draw):
    return draw(arr(draw(st.lists(st.one_of(ENDPOINT, ENDPOINT, ENDPOINT, anything(1)), max_size=3))))


GROUP = record([("max_age", INTS.map(str)), ("endpoints", endpoints()), ("group", string()), ("include_subdomains", BOOL)])


@st.composite
def texts(draw, field):
    good = POLICY if field == "NEL" else GROUP
    return draw(st.lists(st.one_of(good, good, good, anything()), min_size=1, max_size=4))


@st.composite
def valid(draw):
    """JSON values, spread over lines."""
    field = draw(S(FIELDS))
    lines = []
    for i, v in enumerate(draw(texts(field))):
        if i and draw(st.booleans()):
            lines[-1] += draw(WS) + "," + draw(WS) + v
        else:
            lines.append(v)
    return field, lines


BITS = ["NaN", "Infinity", "-Infinity", "nan", "True", "None", "undefined", "'a'", "01", "-", "+1", "1.", ".5", "1e", "0x1", "1_0", "--1", "{", "}", "[", "]", ",", ":", '"', "\\", "\\u12", "\\x41", "\t", "\x01", "\xa0", "//c", "/**/", ";", "a", '{"a"}',
        '{"a":}', '{a:1}', "{,}", "[,]", "[1,]", '{"a":1,}', '"\\"', "tru", "nulll", "\xb2", "1 2", '"a" "b"', "], [", "\x7f", '"\t"', '"\x01"', "{1:2}", '{"a":1 "b":2}', "\ufeff".encode().decode("latin-1"), "-0", "00", "1e5", "-01"]


@st.composite
def edited(draw):
    """The same after a few edits: mostly not JSON."""
    field, lines = draw(valid())
    for _ in range(draw(st.integers(1, 2))):
        i = draw(st.integers(0, len(lines) - 1))
        t = lines[i]
        at = draw(st.integers(0, len(t)))
        how = draw(st.integers(0, 4))
        if how == 0:
            t = t[:at] + draw(S(BITS)) + t[at:]
        elif how == 1:
            t = t[:at] + t[at + 1:]
        elif how == 2:
            t = draw(S(BITS))
        elif how == 3:
            t = t[:at]
        else:
            m = list(re.finditer(r"[-0-9.eE+]+|true|false|null", t))
            if m:
                m = draw(S(m))
                t = t[:m.start()] + draw(S(BITS)) + t[m.end():]
        lines[i] = t
    if any(re.search(r"[\r\n\x00]", t) for t in lines):
        raise AssertionError(lines)
    return field, lines


@st.composite
def split(draw):
    """One list cut at commas or anywhere into lines."""
    field, lines = draw(valid())
    text = ", ".join(lines)
    at = [i for i, c in enumerate(text) if c == ","] or [len(text)]
    i = draw(st.one_of(S(at), st.integers(0, len(text))))
    return field, [text[:i], text[i + 1:] if text[i:i + 1] == "," else text[i:]]


@st.composite
def deep(draw):
    """Far more nesting than a recursive parser can take, finished or not."""
    opening, closing = draw(S([("[", "]"), ('{"a":', "}"), ('[{"a":', "}]"), ('{"max_age": 1, "b": [', "]}"), ("[ ", "]"), ("[1, ", "]")]))
    n = draw(S([300, 900, 1100, 3000, 10000, 20000, 40000, 60000]))
    core, balanced = draw(S([("1", True), ('"a"', True), ("null", True), ("x", False), ("[x", False), ("]x", False), ('"', False), ("01", False)]))
    shut = n if balanced else draw(S([0, 0, 1, n - 1, n]))
    return draw(S(FIELDS)), draw(S(["", "{}, "])) + opening * n + core + closing * shut, balanced


def check_deep(case, rec):
    field, line, balanced = case
    rec.label(field, "balanced" if balanced else "broken", "very deep" if len(line) > 30000 else "deep")
    rec.nt(len(line) > 15000)
    linter = lib.lint(lib.resp([(field.encode(), line.encode("latin-1"))]))
    got = linter.headers.parsed.get(field.lower(), "absent")
    bad = [n for n in linter.notes if type(n).__name__ == "BAD_JSON"]
    if not balanced:
        same(got, None, f"value of a {field} field that isn't JSON: {line[:40]!r}...")
        same(len(bad), 1, f"BAD_JSON notes for {line[:40]!r}...")
    elif bad:
        # JSON, but more deeply nested than can be read: no value is better than some of it
        same((len(bad), got), (1, None), f"BAD_JSON notes and value of {line[:40]!r}...")
    else:
        require(isinstance(got, list) and got, f"neither a value nor a finding for {line[:40]!r}...")
    for n in linter.notes:
        str(n.summary), str(n.detail)


CHECKS = [
    Check("valid", valid, check, n=1600),
    Check("edited", edited, check, n=1600),
    Check("split", split, check, n=500),
    Check("deep", deep, check_deep, n=150, note="hundreds to tens of thousands of levels of nesting"),
]
