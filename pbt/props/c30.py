"""C30: Range, Content-Range and Accept-Ranges."""
import re

from hypothesis import strategies as st

from pbt import lib
from pbt.core import Check, same
from pbt.lib import all_notes, plain

RULE = "a case is a message with range fields; non-trivial when the field has several ranges, is inverted, at the limit of its length, or isn't valid"
ASSUMPTIONS = ["positions have at most 4000 digits (Python's own limit is 4300)", "what follows '=' in Range, for units other than bytes, is only judged when it looks like byte ranges; empty list members and white space right after '=' aren't judged",
               "only the first of several fields counts; it isn't judged how Content-Range fits Content-Length or a multipart body"]
S = st.sampled_from
TCHAR = "!#$%&'*+-.^_`|~09azAZ"
NUM = st.one_of(st.integers(0, 12), S([0, 1, 9, 10, 99, 100, 499, 500, 2 ** 31 - 1, 2 ** 31, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 10 ** 30, 10 ** 400]), st.integers(0, 10 ** 20)).map(str)
NUMZ = st.one_of(NUM, NUM, NUM.map(lambda n: "00" + n))
NOTNUM = S(["a", "0x1", "1.0", "+1", "1 ", " 1", "1_0", "\xb2", "\xb9", "1\x0b", "*", "1e3", "\xa01", "-1", "--1", "1-"])
UNIT = st.one_of(S(["bytes"] * 6 + ["Bytes", "BYTES", "items", "x-y"]), st.text(S(TCHAR), min_size=1, max_size=4))
BADUNIT = S(["", "by tes", "by/tes", "(bytes)", "byt\xe9s", "bytes:", '"bytes"', "bytes\t", "b,c", "bytes@", "[b]"])
TOKEN = re.compile(r"[!#$%&'*+.^_`|~0-9A-Za-z-]+\Z")


@st.composite
def ranges(draw):
    valid = draw(st.integers(0, 3)) != 3
    unit = draw(UNIT)
    specs = []
    want = []
    bad = None
    for i in range(draw(st.integers(1, 5))):
        kind = draw(S(["int", "int", "open", "suffix"]))
        a, b = draw(NUMZ), draw(NUMZ)
        if draw(st.integers(0, 3)) == 0:
            b = str(max(int(a) + draw(st.integers(-1, 1)), 0))
        specs.append({"int": f"{a}-{b}", "open": f"{a}-", "suffix": f"-{b}"}[kind])
        want.append((None if kind == "suffix" else int(a), None if kind == "open" else int(b)))
    if not valid:
        at = draw(st.integers(0, len(specs) - 1))
        bad = draw(S(["unit", "equals", "hyphen", "nothing", "first", "last", "words"]))
        if bad == "unit":
            unit = draw(BADUNIT.filter(lambda u: "," not in u or True))
        elif bad == "hyphen":
            specs[at] = draw(S(["5", "*", "x", "0", "bytes", "\xad5"]))
        elif bad == "nothing":
            specs[at] = "-"
        elif bad == "first":
            specs[at] = draw(NOTNUM.filter(lambda n: n[0] not in " -" and n[-1] != "-")) + "-" + draw(S(["", "5"]))
        elif bad == "last":
            specs[at] = draw(S(["", "5"])) + "-" + draw(NOTNUM.filter(lambda n: n[-1] not in " "))
        elif bad == "words":
            specs[at] = draw(S(["a-b", "0 - 5", "1-2-3", "1--2", "\xa00-5", "0-5\x85", "5-x6"]))
    seps = [draw(S([",", ", ", " ,", " ,\t"])) for _ in specs]
    value = unit + ("" if bad == "equals" else "=") + "".join(s + (p if i < len(specs) - 1 else "") for i, (s, p) in enumerate(zip(specs, seps)))
    if bad == "equals" and "=" in value:
        bad = "equals?"
    return {"value": value, "unit": unit, "want": want, "bad": bad, "repeat": draw(S([None] * 9 + ["bytes=0-1"]))}


PROBLEM = {"unit": "token", "equals": "equals", "hyphen": "hyphen", "nothing": "at least one", "first": "first", "last": "last"}


def range_notes(linter):
    return sorted([n for n in lib.plain_notes(linter) if "RANGE" in n[0]], key=repr)


def check_range(c, rec):
    if c["bad"] == "equals?" or (c["bad"] == "words" and c["unit"].lower() != "bytes"):
        return
    lines = [c["value"]] + ([c["repeat"]] if c["repeat"] else [])
    linter = lib.lint(lib.req(headers=[(b"User-Agent", b"x")] + [(b"Range", v.encode("latin-1")) for v in lines]))
    got = [n for n in all_notes(linter.notes) if type(n).__name__.startswith("RANGE_")]
    parsed = linter.headers.parsed.get("range")
    shown = c["value"][:200]
    bad = c["bad"]
    rec.label("bytes" if c["unit"].lower() == "bytes" else "other unit")
    if bad is None:
        rec.nt(len(c["want"]) > 1)
        same((parsed.unit, [tuple(r) for r in parsed.ranges]) if parsed else None, (c["unit"], c["want"]), "the ranges aren't parsed to their numbers", field=shown)
        inverted = sum(1 for a, b in c["want"] if a is not None and b is not None and a > b)
        if inverted:
            rec.label("inverted")
            rec.nt(True)
        same([type(n).__name__ for n in got], ["RANGE_INVALID"] * inverted, "each inverted range must be reported, and nothing else", field=shown)
    else:
        rec.nt(True)
        rec.label("bad: " + bad)
        same(parsed, None, "this isn't a Range value, but it was parsed", field=shown)
        same([type(n).__name__ for n in got if type(n).__name__ != "RANGE_INVALID"], ["RANGE_BAD_SYNTAX"], "a Range value that isn't valid must be reported once", field=shown)


@st.composite
def content_range(draw):
    bad = draw(S([None] * 8 + ["unit", "nospace", "noslash", "nothing", "stars", "hyphen", "first", "last", "length", "extra"]))
    c = {"unit": draw(UNIT), "bad": bad, "status": draw(S([206, 206, 206, 416, 416, 200, 204, 304, 404, 207])), "repeat": draw(st.integers(0, 9)) == 9}
    a, b, n = draw(NUMZ), draw(NUMZ), draw(NUMZ)
    if draw(st.integers(0, 2)):
        b = str(int(a) + draw(S([-1, 0, 0, 1, 5])))
        if b.startswith("-"):
            b = "0"
        n = str(int(b) + draw(S([-1, 0, 1, 1, 2, 9])))
        if n.startswith("-"):
            n = "0"
    kind = draw(S(["range", "range", "range", "range", "star"]))
    star_len = kind == "range" and draw(st.integers(0, 3)) == 3
    rng, length = f"{a}-{b}" if kind == "range" else "*", "*" if star_len else n
    c["want"] = (c["unit"], int(a) if kind == "range" else None, int(b) if kind == "range" else None, None if star_len else int(n))
    if bad == "unit":
        c["unit"] = draw(BADUNIT.filter(lambda u: " " not in u and u != ""))
    elif bad == "hyphen":
        rng = draw(S(["100", "0", "abc", "**", ""]))
    elif bad == "first":
        rng = draw(S(["a", "0x1", "1.0", "+1", "\xb2", "", "*", " 1", "1 "])) + "-5"
    elif bad == "last":
        rng = "5-" + draw(S(["a", "0x1", "1.0", "+6", "\xb2", "", "*", " 6", "6 ", "6-7"]))
    elif bad == "length":
        length = draw(S(["a", "", "**", "+9", "9.0", " 9", "\xb9", "9/10", "1_0", "-9"]))
    elif bad == "stars":
        rng = length = "*"
    elif bad == "extra":
        rng = " " + rng
    c["value"] = f"{c['unit']} {rng}/{length}"
    if bad == "nospace":
        c["value"] = f"{rng}/{length}" if draw(st.booleans()) else f"{c['unit']}={rng}/{length}"
    elif bad == "noslash":
        c["value"] = draw(S([f"{c['unit']} {rng}", f"{c['unit']} {rng} {n}", f"{c['unit']} {rng}\\{n}"]))
    elif bad == "nothing":
        c["value"] = draw(S([c["unit"], f"{c['unit']}={a}-{b}", f"{a}-{b}", "*"]))
    c["star"], c["starlen"] = kind == "star", star_len
    return c


EXPECT = {"unit": "CONTENT_RANGE_MISSING_UNIT", "nospace": "CONTENT_RANGE_MISSING_UNIT", "noslash": "CONTENT_RANGE_MISSING_SLASH", "nothing": "CONTENT_RANGE_MISSING_SLASH", "stars": "CONTENT_RANGE_INVALID_ASTERISK", "hyphen": "RANGE_MISSING_HYPHEN",
          "first": "RANGE_INVALID_INTEGER", "last": "RANGE_INVALID_INTEGER", "length": "RANGE_INVALID_INTEGER"}


def check_content_range(c, rec):
    if c["bad"] == "nospace" and "/" in c["unit"] + "x" and " " in c["value"]:
        return
    headers = [(b"Content-Range", c["value"].encode("latin-1"))]
    if c["repeat"]:
        headers.append((b"Content-Range", b"bytes 0-1/2"))
    linter = lib.lint(lib.resp(headers, status=c["status"]))
    got = sorted(type(n).__name__ for n in all_notes(linter.notes) if "RANGE" in type(n).__name__ and not type(n).__name__.startswith("STATUS") and n.subject == "field-content-range")
    want = [] if c["status"] in (206, 416) else ["CONTENT_RANGE_MEANINGLESS"]
    parsed = linter.headers.parsed.get("content-range")
    shown = c["value"][:200]
    bad = c["bad"]
    rec.label(f"bad: {bad}" if bad else "valid")
    if bad is None:
        _, first, last, length = c["want"]
        same((parsed.unit, parsed.first_byte_pos, parsed.last_byte_pos, parsed.complete_length) if parsed else None, c["want"], "the content range isn't parsed to its numbers", field=shown)
        if c["starlen"]:
            want.append("CONTENT_RANGE_UNKNOWN_LENGTH")
        if c["star"]:
            if c["status"] == 206:
                want.append("CONTENT_RANGE_UNSATISFIED_BAD_SC")
        else:
            if first > last:
                want.append("RANGE_INVALID")
            if length is not None and last >= length:
                want.append("RANGE_INVALID")
        rec.nt(bool(want) or last == 0 or (length is not None and last is not None and last + 1 >= length))
        same(got, sorted(want), "what is said about the content range", field=shown, status=c["status"])
    else:
        rec.nt(True)
        same(parsed, None, "this isn't a content range, but it was parsed", field=shown)
        base = [n for n in got if n not in ("CONTENT_RANGE_UNKNOWN_LENGTH",)]
        if bad == "extra":
            got_bad = [n for n in base if n != "CONTENT_RANGE_MEANINGLESS"]
            same(len(got_bad), 1, "a content range that isn't valid must be reported once", field=shown, notes=got)
        else:
            same(base, sorted(want + [EXPECT[bad]]), "what is said about a content range that isn't valid", field=shown)


@st.composite
def accept_ranges(draw):
    members = draw(st.lists(st.one_of(S(["bytes", "none", "Bytes", "NONE", "bytes", "none"]), UNIT, S(["byte", "nones", "bytes2"])), min_size=1, max_size=4))
    lines = [[]]
    for m in members:
        if draw(st.integers(0, 4)) == 4:
            lines.append([])
        lines[-1].append(m)
    return {"lines": [", ".join(x) for x in lines if x], "members": members}


def check_accept_ranges(c, rec):
    linter = lib.lint(lib.resp([(b"Accept-Ranges", x.encode()) for x in c["lines"]]))
    members = [m.lower() for m in c["members"]]
    same(linter.headers.parsed.get("accept-ranges"), members, "Accept-Ranges must be its members in lower case", lines=c["lines"])
    unknown = [m for m in members if m not in ("bytes", "none")]
    rec.nt(bool(unknown) and len(members) > len(unknown))
    same([n.vars["range"] for n in all_notes(linter.notes) if type(n).__name__ == "UNKNOWN_RANGE"], unknown, "each unknown range unit must be reported", lines=c["lines"])


CHECKS = [
    Check("Range", ranges, check_range, 1400, 30000, "range sets built from their numbers, or with one thing wrong"),
    Check("Content-Range", content_range, check_content_range, 1600, 30000, "content ranges built from their numbers, or with one thing wrong, over statuses"),
    Check("Accept-Ranges", accept_ranges, check_accept_ranges, 400, 6000, "lists of range units"),
]
