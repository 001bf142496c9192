"""C15: Cache-Control directives."""
import re

from hypothesis import strategies as st

from pbt import gen, lib
from pbt.core import Check, require, same

RULE = "a case is a message with Cache-Control; non-trivial when it has two or more directives and a finding about one"
ASSUMPTIONS = ["pre-check and post-check pairs are only judged when neither repeats"]
S = st.sampled_from

#            requests responses value
KNOWN = {
    "immutable": (0, 1, None), "max-age": (1, 1, int), "max-stale": (1, 0, int), "min-fresh": (1, 0, int), "must-revalidate": (0, 1, None),
    "must-understand": (0, 1, None), "no-cache": (1, 1, str), "no-store": (1, 1, None), "no-transform": (1, 1, None), "only-if-cached": (1, 0, None),
    "private": (0, 1, str), "proxy-revalidate": (0, 1, None), "public": (0, 1, None), "s-maxage": (0, 1, int), "stale-if-error": (0, 1, int),
    "stale-while-revalidate": (0, 1, int), "pre-check": (0, 1, int), "post-check": (0, 1, int),
}
FRESH = ["immutable", "max-age", "must-revalidate", "proxy-revalidate", "s-maxage", "stale-if-error", "stale-while-revalidate", "pre-check", "post-check"]
OVERRIDES = [
    ("no-store", FRESH + ["no-cache", "private", "public"]),
    ("no-cache", FRESH),
    ("must-revalidate", ["immutable", "stale-if-error", "stale-while-revalidate", "pre-check", "post-check"]),
]
MAX = 2**31
UNKNOWN = ["foo", "a", "no_store", "nostore", "maxage", "max-age2", "x-max-age", "community", "!"]
INTS = st.one_of(S(["0", "1", "5", "3600", "007", str(MAX), str(MAX + 1), str(MAX - 1), "9" * 30, "-1", "-0"]), st.integers(0, 10**10).map(str))
BAD = S(["", "x", "+1", "1.5", "1_0", "0x1", '"5"', "1e3", "\u00b2", "- 1", "5s", "--5", "'5'", "5\xa0", "5\x0b", "5\x85", "\x1f5"])
QUOTED = S(['"set-cookie"', '"a, b"', '"a\\"b"', '""', "x", '"a\\\\"', '*'])


@st.composite
def directive(draw):
    name = draw(st.one_of(S(sorted(KNOWN)), S(sorted(KNOWN)), S(sorted(KNOWN)), S(UNKNOWN)))
    kind = KNOWN.get(name, (1, 1, "any"))[2]
    how = draw(st.integers(0, 9))
    if kind is int:
        value = draw(INTS) if how < 7 else draw(BAD) if how < 9 else None
    elif kind is str:
        value = None if how < 6 else draw(QUOTED)
    elif kind is None:
        value = None if how < 8 else draw(S(["1", "x", '"y"']))
    else:
        value = None if how < 5 else draw(st.one_of(S(["1", '"y, z"', "", "a=b"]), INTS))
    flips = draw(st.integers(0, 7))
    name = [name, name, name, name, name, name.upper(), name.capitalize(), "".join(c.upper() if i % 2 else c for i, c in enumerate(name))][flips]
    return name if value is None else f"{name}={value}"


@st.composite
def cases(draw):
    ds = draw(st.lists(directive(), min_size=1, max_size=7))
    if draw(st.integers(0, 3)) == 0:
        ds.append(draw(S(ds)))
    lines, cur = [], []
    for d in ds:
        cur.append(d)
        if draw(st.integers(0, 3)) == 0:
            lines.append(draw(S([", ", ",", " ,\t", ",, "])).join(cur))
            cur = []
    if cur:
        lines.append(", ".join(cur))
    return {"kind": draw(S(["response", "response", "request"])), "lines": lines, "perm": draw(st.permutations(range(len(ds)))), "ds": ds}


def members(line):
    """Split on commas that aren't inside a quoted string."""
    out, cur, i = [], "", 0
    while i < len(line):
        if line[i] == '"':
            m = re.compile(r'"(?:[\t \x21\x23-\x5b\x5d-\x7e\x80-\xff]|\\[\t \x21-\x7e\x80-\xff])*"').match(line, i)
            if m:
                cur += m.group()
                i = m.end()
                continue
        if line[i] == ",":
            out.append(cur)
            cur = ""
        else:
            cur += line[i]
        i += 1
    out.append(cur)
    return [x for x in (m.strip(" \t") for m in out) if x]


def unquote(v):
    if len(v) >= 2 and v[0] == '"' and v[-1] == '"':
        return re.sub(r"\\(.)", r"\1", v[1:-1])
    return v


def model(case):
    """(parsed value, [(line, class, directive)], [(class, directive)])"""
    kind = case["kind"]
    parsed, per_line, whole = [], [], []
    for i, line in enumerate(case["lines"]):
        for m in members(line):
            name, eq, value = m.partition("=")
            low = name.lower()
            if low != name:
                per_line.append((i, "CC_MISCAP", name))
            if not eq:
                value = None
            want = KNOWN.get(low, (1, 1, "any"))[2]
            if want is None and value is not None:
                per_line.append((i, "CC_SHOULD_NOT_HAVE_VALUE", low))
            elif want is int and not (value is None and low == "max-stale"):
                if value is None or not re.fullmatch("-?[0-9]+", value):
                    per_line.append((i, "CC_BAD_VALUE_TYPE", low))
                    continue
                value = int(value)
                if value > MAX:
                    per_line.append((i, "CC_MAX_AGE_TOO_LARGE", low))
            elif want is str and value is not None:
                value = unquote(value)
            parsed.append((low, value))
    names = [n for n, _ in parsed]
    if kind == "response":
        for d, over in OVERRIDES:
            hit = [o for o in over if o in names]
            if d in names and hit:
                whole.append(("CC_CONFLICTING", d))
                break
    for d in set(names):
        if not KNOWN.get(d, (1, 1))[0 if kind == "request" else 1]:
            whole.append(("CC_WRONG_MESSAGE", d))
        elif d in KNOWN and names.count(d) > 1:
            whole.append(("CC_DUP", d))
    pre, post = [v for n, v in parsed if n == "pre-check"], [v for n, v in parsed if n == "post-check"]
    checks = None
    if not pre and not post:
        checks = []
    elif not pre or not post:
        checks = ["CHECK_SINGLE"]
    elif len(pre) == len(post) == 1:
        a, b = pre[0], post[0]
        checks = ["CHECK_ALL_ZERO" if a == b == 0 else "CHECK_POST_BIGGER" if b > a else "CHECK_POST_ZERO" if b == 0 else "CHECK_POST_PRE"]
    return parsed, per_line, whole, checks


def check(case, rec):
    l = lib.lint(lib.msg(case["kind"], [(b"Cache-Control", v.encode("latin-1")) for v in case["lines"]]))
    parsed, per_line, whole, checks = model(case)
    desc = f"{case['kind']} with Cache-Control {case['lines']}"
    same(l.headers.parsed["cache-control"], parsed, f"{desc}: parsed value")
    got_line, got_whole, got_checks = [], [], []
    for n in l.notes:
        cls = type(n).__name__
        if cls.startswith("CHECK_"):
            same(n.subject, "field-cache-control", f"{desc}: subject of {cls}")
            got_checks.append(cls)
            if cls == "CHECK_POST_PRE" and checks == [cls]:
                values = dict(parsed)
                same((n.vars["pre_check"], n.vars["post_check"]), (values["pre-check"], values["post-check"]), f"{desc}: values in {cls}")
        elif cls in ("CC_MISCAP", "CC_SHOULD_NOT_HAVE_VALUE", "CC_BAD_VALUE_TYPE", "CC_MAX_AGE_TOO_LARGE"):
            got_line.append((int(n.subject[7:]), cls, n.vars["directive"]))
            require(n.vars["directive"] in n.summary, "%s: %s doesn't name its directive", desc, cls)
        elif cls.startswith("CC_") and cls != "CC_AND_EXPIRES":
            same(n.subject, "field-cache-control", f"{desc}: subject of {cls}")
            got_whole.append((cls, n.vars["directive"]))
            if cls == "CC_CONFLICTING":
                names = {d for d, _ in parsed}
                over = {o for o in dict(OVERRIDES)[n.vars["directive"]] if o in names}
                shown = set(re.findall(r"<li>\s*(?:<p>)?<code>([^<]*)</code>", str(n.detail)))
                same(shown, over, f"{desc}: directives listed as overridden by {n.vars['directive']}")
    same(sorted(got_line), sorted(per_line), f"{desc}: findings about single directives (line, finding, directive)")
    same(sorted(got_whole), sorted(whole), f"{desc}: findings about the directives together")
    if checks is not None:
        same(got_checks, checks, f"{desc}: pre-check and post-check findings")
    # the order of the directives doesn't matter
    if len({d.split("=")[0].lower() for d in case["ds"]}) == len(case["ds"]):
        one = lib.lint(lib.msg(case["kind"], [(b"Cache-Control", ", ".join(case["ds"]).encode("latin-1"))]))
        two = lib.lint(lib.msg(case["kind"], [(b"Cache-Control", ", ".join(case["ds"][i] for i in case["perm"]).encode("latin-1"))]))
        a, b = (sorted(map(repr, (lib.note_key(n, variables=type(n).__name__ not in ("BAD_SYNTAX_DETAILED",)) for n in x.notes))) for x in (one, two))
        same(b, a, f"findings for {case['ds']} reordered by {case['perm']}")
        rec.label("reordered")
    rec.nt(len(case["ds"]) >= 2 and bool(per_line or whole or checks))
    rec.label(case["kind"], *{x[1] for x in per_line}, *{x[0] for x in whole}, *(checks or []))


CHECKS = [Check("directives", cases, check, n=12000, note="reference model of the directives and the findings about them")]
