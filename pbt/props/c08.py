"""C08: a list field means the same on one line or spread over several."""
import collections
import re

from hypothesis import strategies as st

from pbt import gen, lib, spec
from pbt.core import Check, Skip, require, same

RULE = "a case is a list-valued field, its members, and two ways of laying them out on lines; non-trivial with two or more members and different layouts"
ASSUMPTIONS = ["members have balanced double quotes, so that joining lines cannot pair up stray quotes"]
S = st.sampled_from
LISTS = [n for n in spec.shape("list") if n != "Server"]  # Server's a single value, kept as one member
SFS = [n for n in spec.shape("sf-list", "sf-dictionary")]
JSONS = spec.shape("json")
QUOTED = re.compile(r'"(?:[^"\\]|\\.)*"')


AUTH_PARAM = re.compile(r"""[!#$%&'*+\-.^_`|~0-9A-Za-z]+[ \t]*=[ \t]*(?:[!#$%&'*+\-.^_`|~0-9A-Za-z]+|"(?:[\t !#-\[\]-~\x80-\xff]|\\[\t -~\x80-\xff])*")\Z""")


def comment(text, pos, depth=0):
    """End of a well-formed comment starting at pos, or None."""
    pos += 1
    while pos < len(text):
        c = text[pos]
        if c == ")":
            return pos + 1
        if c == "(":
            pos = comment(text, pos, depth + 1) if depth < 7 else None
            if pos is None:
                return None
        elif c == "\\":
            pos += 2
        else:
            pos += 1
    return None


def members(text, name=""):
    """Split on the commas that separate members; None if what protects commas is unbalanced."""
    out, cur, pos = [], "", 0
    while pos < len(text):
        c, end = text[pos], pos + 1
        if name == "Via":
            if c == "(":
                end = comment(text, pos)
                if end is None:
                    return None
        elif name == "Link" and c == "<" and not cur.strip(" \t"):
            end = text.find(">", pos) + 1
            if not end:
                return None
        elif c == '"' and name in ("If-Match", "If-None-Match"):  # entity tags have no escapes
            end = text.find('"', pos + 1) + 1
            if not end:
                return None
        elif c == '"':
            m = QUOTED.match(text, pos)
            if not m or re.search(r"[^\t\x20-\x7e\x80-\xff]", m[0]):
                return None
            end = m.end()
        if c == ",":
            out.append(cur)
            cur = ""
        else:
            cur += text[pos:end]
        pos = end
    out.append(cur)
    out = [m.strip(" \t") for m in out if m.strip(" \t")]
    if name in ("WWW-Authenticate", "Proxy-Authenticate"):
        merged = []
        for m in out:
            if AUTH_PARAM.match(m):
                if not merged:
                    return None  # a parameter of no challenge
                merged[-1] += ", " + m
            else:
                merged.append(m)
        return merged
    return out


def separable(items, name):
    """Those of the items that are single members and stay so when joined."""
    items = [i for i in items if members(i, name) == [i]]
    while items and members(", ".join(items), name) != items:
        items.pop()
    return items or ["a"]


@st.composite
def layout(draw, items, kind):
    lines, cur = [], []
    for it in items:
        cur.append(it)
        if draw(st.booleans()):
            lines.append(cur)
            cur = []
    if cur or not lines:
        lines.append(cur)
    if kind == "list":
        out = []
        for line in lines:
            padded = []
            for it in line:
                while draw(st.integers(0, 5)) == 0:
                    padded.append(draw(S(["", " ", "\t"])))
                padded.append(draw(S(["", "", " ", "\t"])) + it + draw(S(["", "", " "])))
            while draw(st.integers(0, 7)) == 0:
                padded.append("")
            out.append(draw(S([",", ", "])).join(padded))
        # whole lines that are empty are lists of nothing
        if out and draw(st.integers(0, 7)) == 0:
            out.insert(draw(st.integers(0, len(out))), draw(S(["", " ", ",", " , "])))
        return out
    return [", ".join(line) for line in lines if line]


@st.composite
def cases(draw, pool, kind):
    name = draw(S(pool))
    items = []
    for v in draw(st.lists(gen.field_value(name), min_size=1, max_size=4)):
        text = v.decode("latin-1")
        got = members(text, name) if kind != "json" else [text]
        if got is None:
            text = re.sub('["<>()]', "", text)
            got = members(text, name)
        items.extend(got or [])
    if kind != "list":
        items = [i.strip(" \t") for i in items if i.strip(" \t")]  # what is around a line isn't part of it
    if kind == "sf":
        items = [i for i in items if i][:6]
    items = items[:7]
    if kind == "list":
        items = separable(items, name)
    if not items:
        items = ["a"]
    where = spec.kinds_of(name)
    return {"name": name, "kind": draw(S(where)), "items": items, "trailer": draw(st.integers(0, 9)) == 0,
            "lines": draw(layout(items, kind)), "shape": kind}


def lint(case, lines):
    fields = [(case["name"].encode(), l.encode("latin-1")) for l in lines]
    m = lib.msg(case["kind"], [] if case["trailer"] else fields, base="https://example.com/foo/")
    if case["trailer"]:
        m["trailers"] = fields
    return lib.lint(m)


PER_LINE = {"FIELD_VALUE_ENCODING", "FIELD_DEPRECATED"}


def notes(linter):
    out = collections.Counter()
    for n in linter.notes:
        if type(n).__name__ in PER_LINE:
            continue
        subject = "line" if n.subject.startswith("offset-") else n.subject
        out[(subject, repr(lib.note_key(n, subject=False)))] += 1
    return out


def check(case, rec):
    one = ", ".join(case["items"])
    if len(one) > 6000:
        raise Skip("too long")
    a, b = lint(case, [one]), lint(case, case["lines"])
    what = f"{case['name']} as {case['lines']} instead of {[one]}"
    sec = "trailers" if case["trailer"] else "headers"
    key = case["name"].lower()
    pa, pb = getattr(a, sec).parsed.get(key, "absent"), getattr(b, sec).parsed.get(key, "absent")
    same(lib.plain(pb), lib.plain(pa), f"value of {what}")
    na, nb = notes(a), notes(b)
    if na != nb:
        require(False, "findings differ for %s: lost %r, gained %r", what, list((na - nb).elements())[:2], list((nb - na).elements())[:2])
    rec.nt(len(case["items"]) > 1 and case["lines"] != [one])
    rec.label(case["name"], f"{min(len(case['lines']), 4)} lines")


SETS = {"Vary"}  # the order and number of members is not kept
SYNTAX = {"BAD_SYNTAX", "BAD_SYNTAX_DETAILED"}


def check_members(case, rec):
    """Each member stands for itself: one value and one syntax verdict each, and the whole is their concatenation."""
    items = case["items"]
    if sum(map(len, items)) > 6000:
        raise Skip("too long")
    sec, key = ("trailers" if case["trailer"] else "headers"), case["name"].lower()
    values, findings = [], collections.Counter()
    for it in items:
        solo = lint(case, [it])
        value = getattr(solo, sec).parsed.get(key)
        if isinstance(value, (list, tuple)):
            require(len(value) <= 1, "%s: the one member %r is parsed to %r", case["name"], it, value)
            values.extend(value)
        elif value is not None and values is not None:
            values = None
        syn = [n for n in solo.notes if type(n).__name__ in SYNTAX]
        require(len(syn) <= 1, "%s: the one member %r has %d syntax findings", case["name"], it, len(syn))
        findings.update(repr(lib.note_key(n)) for n in syn)
        if values is None:
            break
    whole = lint(case, case["lines"])
    if values is not None and case["name"] in SETS:
        same(set(getattr(whole, sec).parsed.get(key)), set(values), f"value of {case['name']}: {case['lines']} against its members' values")
    elif values is not None:
        same(lib.plain(getattr(whole, sec).parsed.get(key)), lib.plain(values), f"value of {case['name']}: {case['lines']} against its members' values")
        same(collections.Counter(repr((lib.note_key(n, subject=False))) for n in whole.notes if type(n).__name__ in SYNTAX),
             collections.Counter(repr(lib.note_key(n, subject=False)) for it in items for n in lint(case, [it]).notes if type(n).__name__ in SYNTAX), f"syntax findings for {case['name']}: {case['lines']} against its members'")
    rec.nt(len(items) > 1 and values is not None)
    rec.label(case["name"])


@st.composite
def quoted_cases(draw):
    """Members with commas, semicolons and escapes inside quoted strings."""
    case = draw(cases(LISTS, "list"))
    inner = st.text(alphabet='a, ;=\\"\t<>', max_size=8).map(lambda t: '"' + t.replace("\\", "\\\\").replace('"', '\\"') + '"')
    items = []
    for it in case["items"]:
        how = draw(st.integers(0, 3))
        if how == 0 and QUOTED.search(it):
            it = QUOTED.sub(lambda m, q=draw(inner): q, it, count=1)
        elif how == 1:
            it = it + draw(S(["; a=", ";a=", "=", " a=", " "])) + draw(inner)
        elif how == 2:
            it = draw(inner)
        items.append(it)
    items = separable(items, case["name"])
    return dict(case, items=items, lines=draw(layout(items, "list")))


CHECKS = [
    Check("members", lambda: st.one_of(cases(LISTS, "list"), quoted_cases()), check_members, n=8000, note="each member of a list alone against the whole list"),
    Check("quoted", quoted_cases, check, n=5000, note="members with delimiters inside quoted strings, on one line or several"),
    Check("lists", lambda: cases(LISTS, "list"), check, n=14000, note="comma-separated fields laid out on lines with empty members and padding"),
    Check("structured", lambda: cases(SFS, "sf"), check, n=5000, note="structured lists and dictionaries split between members"),
    Check("json", lambda: cases(JSONS, "json"), check, n=1500, note="JSON fields split between values"),
]
