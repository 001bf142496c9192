"""C11: HTTP dates are understood exactly, or reported as invalid."""
import os
import re
import time

from hypothesis import strategies as st

from pbt import abnf, lib, rfc
from pbt.core import Check, Skip, require, same

RULE = "a case is a date-valued field with a date in one of the three HTTP formats, or an edited one; non-trivial when it isn't a plain IMF-fixdate of this century"
ASSUMPTIONS = ["four-digit years before 1000 and two-digit years whose century depends on today's date (60 to 85) aren't judged",
               "the day of the week isn't compared with the date"]
S = st.sampled_from
FIELDS = ["Date", "Expires", "Last-Modified", "Sunset"]
DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
LENGTHS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
ZONES = ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Kiritimati", "XYZ-14", "ABC+11:30DEF"]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def days(y, m, d):
    """Days from 1970-01-01, counted the long way round."""
    n = 365 * (y - 1970)
    n += sum(1 for x in range(1970, y) if leap(x)) - sum(1 for x in range(y, 1970) if leap(x))
    for i in range(m - 1):
        n += LENGTHS[i] + (1 if i == 1 and leap(y) else 0)
    return n + d - 1


def fmt(style, y, mo, d, h, mi, s, wd):
    if style == "imf":
        return f"{DAYS[wd][:3]}, {d:02} {MONTHS[mo - 1]} {y:04} {h:02}:{mi:02}:{s:02} GMT"
    if style == "850":
        return f"{DAYS[wd]}, {d:02}-{MONTHS[mo - 1]}-{y % 100:02} {h:02}:{mi:02}:{s:02} GMT"
    return f"{DAYS[wd][:3]} {MONTHS[mo - 1]} {d:2} {h:02}:{mi:02}:{s:02} {y:04}"


YEARS = st.one_of(S([1970, 1969, 1994, 1999, 2000, 2001, 2004, 2024, 2025, 2026, 2038, 2100, 2400, 1900, 1901, 1000, 9999]), st.integers(1986, 2059), st.integers(1000, 9999))


@st.composite
def instants(draw):
    y, mo = draw(YEARS), draw(st.integers(1, 12))
    last = LENGTHS[mo - 1] + (mo == 2 and leap(y))
    d = draw(st.one_of(S([1, last, 9, 10]), st.integers(1, last)))
    h, mi, s = draw(st.one_of(S([0, 23, 12]), st.integers(0, 23))), draw(st.one_of(S([0, 59]), st.integers(0, 59))), draw(st.one_of(S([0, 59, 60]), st.integers(0, 59)))
    style = draw(S(["imf", "850", "asc"]))
    if style == "850":
        y = draw(st.one_of(st.integers(1986, 2059), S([2000, 1999, 1990, 2025, 2059])))
        d = min(d, LENGTHS[mo - 1])
    wd = (days(y, mo, d) + 3) % 7
    return {"style": style, "at": [y, mo, d, h, mi, s], "wd": wd}


def expect(at):
    y, mo, d, h, mi, s = at
    return days(y, mo, d) * 86400 + h * 3600 + mi * 60 + s


@st.composite
def valid(draw):
    i = draw(instants())
    return {"name": draw(S(FIELDS)), "value": fmt(i["style"], *i["at"], i["wd"]), "want": expect(i["at"]), "obs": i["style"] != "imf",
            "pad": draw(S(["", "", " ", "\t", "  "])), "zone": draw(S(ZONES)), "trailer": draw(st.integers(0, 9)) == 0, "start": draw(S([None, 0, 1800000000]))}


ODD = st.one_of(
    S(["0", "", "-1", "Mon", "GMT", "2024-01-01T00:00:00Z", "1704067200", "Mon, 01 Jan 2024 00:00:00 UTC", "Mon, 01 Jan 2024 00:00:00 +0000",
       "Mon, 01 Jan 2024 00:00:00", "Mon, 1 Jan 2024 00:00:00 GMT", "Mon, 01 Jan 24 00:00:00 GMT", "01 Jan 2024 00:00:00 GMT", "Mon, 01-Jan-2024 00:00:00 GMT",
       "Monday, 01 Jan 2024 00:00:00 GMT", "Mon, 01 Jan 2024 24:00:00 GMT", "Mon, 01 Jan 2024 00:00 GMT", "Mon, 01 Jan 2024 12:00:00 AM GMT", "Thu, 30 Feb 2023 00:00:00 GMT",
       "Wed, 29 Feb 2023 00:00:00 GMT", "Thu, 29 Feb 2024 00:00:00 GMT", "Mon, 00 Jan 2024 00:00:00 GMT", "Mon, 01 Foo 2024 00:00:00 GMT", "Mon, 01 jan 2024 00:00:00 GMT",
       "Mon, 01 Jan 2024 00:00:00 gmt", "Mon, 01 Jan 2024 00:00:00 GMT GMT", "Mon, 01 Jan 2024 00:00:00 EST", "Mon,01 Jan 2024 00:00:00 GMT", "Mon, 01  Jan 2024 00:00:00 GMT",
       "Mon Jan 1 00:00:00 2024", "Mon Jan  1 00:00:00 2024", "Mon Jan 01 00:00:00 2024", "Mon Jan  1 00:00:00 2024 GMT"]))


@st.composite
def edited(draw):
    how = draw(st.integers(0, 3))
    if how == 0:
        value = draw(ODD)
    else:
        i = draw(instants())
        at = list(i["at"])
        if how == 1:  # one part out of range, or nearly
            k = draw(S([2, 2, 3, 4, 5]))
            at[k] = draw(S({2: [0, 28, 29, 30, 31, 32, 99], 3: [23, 24, 25, 99], 4: [59, 60, 99], 5: [59, 60, 61, 99]}[k]))
            value = fmt(i["style"], *at, i["wd"])
        else:
            value = draw(abnf.mutated(st.just(fmt(i["style"], *at, draw(st.integers(0, 6))))))
            if draw(st.integers(0, 9)) == 0:
                value += draw(S(["\n", "\r", "\x0b", "\x00", "\xa0", " GMT", ", 01 Jan 2024"]))
    return {"name": draw(S(FIELDS)), "value": value, "zone": draw(S(ZONES)), "trailer": False, "start": None, "pad": ""}


NUM = re.compile(r"[0-9]+")


def understand(value):
    """(instant, obsolete) of an HTTP date, None if it isn't one, "?" if not judged."""
    value = value.strip(" \t")
    g = rfc.grammar()
    for style, rule in (("imf", "IMF-fixdate"), ("850", "rfc850-date"), ("asc", "asctime-date")):
        if g.matches(rule, value):
            break
    else:
        return None
    if style == "asc":
        d, h, mi, s, y = map(int, NUM.findall(value))
    else:
        d, y, h, mi, s = map(int, NUM.findall(value))
    if style == "850":
        mo = MONTHS.index(value.split("-")[1]) + 1
        if 60 <= y <= 85:
            return "?"
        y += 1900 if y > 68 else 2000
    elif style == "asc":
        mo = MONTHS.index(value[4:7]) + 1
    else:
        mo = MONTHS.index(value[8:11]) + 1
    if y < 1000:
        return "?"
    if not (1 <= d <= LENGTHS[mo - 1] + (mo == 2 and leap(y)) and h < 24 and mi < 60 and s <= 60):
        return None
    return expect([y, mo, d, h, mi, s]), style != "imf"


def run(case):
    fields = [(case["name"].encode(), (case["pad"] + case["value"] + case["pad"]).encode("latin-1"))]
    m = lib.resp([] if case["trailer"] else fields)
    if case["trailer"]:
        m["trailers"] = fields
    if case["start"] is not None:
        m["start"] = case["start"]
    old = os.environ.get("TZ")
    os.environ["TZ"] = case["zone"]
    time.tzset()
    try:
        linter = lib.lint(m)
    finally:
        os.environ["TZ"] = old or "UTC"
        time.tzset()
    section = linter.trailers if case["trailer"] else linter.headers
    found = [type(n).__name__ for n in linter.notes if n.subject == f"field-{case['name'].lower()}"]
    return section.parsed[case["name"].lower()], "BAD_DATE_SYNTAX" in found, "DATE_OBSOLETE" in found


def check_valid(case, rec):
    value, bad, obs = run(case)
    same(value, case["want"], f"{case['name']}: {case['value']!r} with the machine in {case['zone']}")
    require(not bad, "%s: %r is reported as an invalid date", case["name"], case["value"])
    same(obs, case["obs"], f"whether {case['value']!r} is reported as obsolete")
    rec.nt(case["obs"] or not 946684800 <= case["want"] < 4102444800 or case["zone"] != "UTC")
    rec.label(case["name"], "obsolete" if case["obs"] else "current")


def check_edited(case, rec):
    want = understand(case["value"])
    if want == "?":
        raise Skip("century unclear")
    value, bad, obs = run(case)
    if want is None:
        require(bad, "%s: %r isn't an HTTP date, but isn't reported", case["name"], case["value"])
        require(value is None, "%s: %r isn't an HTTP date, but gives %r", case["name"], case["value"], value)
    else:
        require(not bad, "%s: %r is reported as an invalid date", case["name"], case["value"])
        same(value, want[0], f"{case['name']}: {case['value']!r}")
        same(obs, want[1], f"whether {case['value']!r} is reported as obsolete")
    rec.nt()
    rec.label("invalid" if want is None else "valid")


def every_day(tier):
    """Every day of some years in each format: nothing to sample."""
    out = []
    for y in ([1999, 2000, 2024] if tier == "quick" else range(1986, 2060)):
        for mo in range(1, 13):
            for d in range(1, LENGTHS[mo - 1] + (mo == 2 and leap(y)) + 1):
                for style in ("imf", "850", "asc"):
                    at = [y, mo, d, 23, 59, 58]
                    out.append({"name": "Expires", "value": fmt(style, *at, (days(y, mo, d) + 3) % 7), "want": expect(at), "obs": style != "imf", "pad": "", "zone": "UTC",
                           "trailer": False, "start": None})
    return out


def edges(tier):
    texts = rfc.grammar().edges("HTTP-date")
    for at in ([2024, 2, 29, 0, 0, 0], [2023, 2, 29, 0, 0, 0], [1970, 1, 1, 0, 0, 1], [2000, 2, 29, 23, 59, 60], [2100, 2, 29, 1, 1, 1], [1999, 12, 31, 24, 0, 0], [1999, 12, 31, 0, 60, 0], [1999, 12, 31, 0, 0, 61], [1999, 12, 32, 0, 0, 0], [1999, 4, 31, 0, 0, 0], [1999, 4, 0, 0, 0, 0]):
        texts += [fmt(style, *at, 3) for style in ("imf", "850", "asc")]
    return [{"name": FIELDS[(i + k) % len(FIELDS)], "value": t, "zone": "UTC", "trailer": False, "start": None, "pad": ""}
            for i, t in enumerate(texts) if t.strip(" \t") for k in range(3 if tier == "quick" else len(FIELDS))]


CHECKS = [
    Check("instants", valid, check_valid, n=5000, note="instants written in the three formats, under several time zones"),
    Check("edited", edited, check_edited, n=7000, note="dates with parts out of range or characters edited, judged by grammar and calendar"),
    Check("edges", None, check_edited, enum=edges, note="values at, and just beyond, every choice in the grammar of dates, and the calendar's edges"),
    Check("days", None, check_valid, enum=every_day, note="every day of several years, in each format"),
]
