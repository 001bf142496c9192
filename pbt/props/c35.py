"""C35: findings about time."""
import time

from hypothesis import strategies as st

from pbt import lib
from pbt.core import Check, same, require
from pbt.props.c11 import days, fmt

RULE = "a case is a message with dates close to or far from each other and from the time it was received; non-trivial when two of these are within ten seconds, or one is at the epoch"
ASSUMPTIONS = ["dates are valid, from year 1900 to 9999 (RFC 850 ones 1986 to 2059); Age is a non-negative integer, or absent or invalid and then counts as zero", "the wording of durations is judged in English: Babel's units, from 1.2 of a unit up, rounded to the nearest",
               "a clock is correct when Date plus Age is within five seconds of the whole second of receipt; an intermediary changed Date when Age exceeds five and Date is less than five seconds before receipt"]
S = st.sampled_from
UNITS = [("year", 31536000), ("month", 2592000), ("week", 604800), ("day", 86400), ("hour", 3600), ("minute", 60), ("second", 1)]
TOP = 253402300799


def http_date(draw, t):
    tm = time.gmtime(t)
    styles = ["imf", "imf", "asc"] + (["850"] if 1986 <= tm.tm_year <= 2059 else [])
    return fmt(draw(S(styles)), tm.tm_year, tm.tm_mon, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, tm.tm_wday)


def words(seconds):
    seconds = abs(seconds)
    for unit, size in UNITS:
        if seconds >= 1.2 * size or size == 1:
            n = round(seconds / size)
            return f"{n} {unit}" + ("" if n == 1 else "s")


NEAR = st.one_of(st.integers(-12, 12), S([-6, -5, -4, 0, 4, 5, 6]), S([-60, 59, 60, 72, 73, 3600, -86400, 10 ** 6, -10 ** 9, 31536000, -31536000, 37843200, 37843199]), st.integers(-10 ** 8, 10 ** 8))


def clamp(t):
    return max(min(t, TOP), -2208988800)


@st.composite
def times(draw):
    base = draw(st.one_of(S([0, 5, 1309770486, 1700000000, 4102444800, 253402300700]), st.integers(0, 4 * 10 ** 9)))
    start = draw(S(["whole", "whole", "frac", None]))
    c = {"kind": draw(S(["response"] * 5 + ["request"])), "start": None if start is None else float(base) if start == "whole" else base + draw(S([0.25, 0.5, 0.999]))}
    if draw(st.integers(0, 9)) == 9 and c["start"] is not None:
        c["start"] = int(base)
    age = draw(st.one_of(st.none(), st.none(), st.integers(0, 12), S([5, 6, 60, 2 ** 31, 10 ** 30, "x", "-1"])))
    c["age"] = age
    headers = []
    if age is not None:
        headers.append((b"Age", str(age).encode()))
    a = age if isinstance(age, int) else 0
    for name in ("Date", "Last-Modified", "Sunset"):
        c[name] = None
        if draw(st.integers(0, 3)):
            origin = base if name != "Last-Modified" or c["Date"] is None else c["Date"]
            if name == "Date" and a < 10 ** 9 and draw(st.booleans()):
                origin = base - a
            t = clamp(draw(st.one_of(NEAR.map(lambda d, o=origin: o + d), NEAR.map(lambda d, o=origin: o + d), S([0, 1, -1, 784111777]))))
            c[name] = t
            headers.append((name.encode(), http_date(draw, t).encode()))
    c["dep"] = None
    if draw(st.integers(0, 2)) == 0:
        c["dep"] = draw(st.one_of(S(["?1", "?0", "1", "tok", '"x"', "1.5", ":YQ==:"]), NEAR.map(lambda d: clamp(base + d)), S([0, -1])))
        headers.append((b"Deprecation", (c["dep"] if isinstance(c["dep"], str) else f"@{c['dep']}").encode() + draw(S([b"", b";a"]))))
    c["headers"] = draw(st.permutations(headers))
    return c


NOTES = {"DATE_CORRECT", "DATE_INCORRECT", "AGE_PENALTY", "LM_FUTURE", "LM_PRESENT", "SUNSET_PAST", "DEPRECATION_PAST", "DEPRECATION_FUTURE", "DEPRECATION_TRUE", "DEPRECATION_BAD_TYPE"}


def iso(t):
    n, s = divmod(t, 86400)
    y = 1970 + n // 365
    while days(y, 1, 1) > n:
        y -= 1
    m = 1
    while m < 12 and days(y, m + 1, 1) <= n:
        m += 1
    return f"{y:04}-{m:02}-{n - days(y, m, 1) + 1:02}T{s // 3600:02}:{s // 60 % 60:02}:{s % 60:02}"


def model(c):
    out = {}
    if c["kind"] == "request":
        return out
    start, date, lm = c["start"], c["Date"], c["Last-Modified"]
    age = c["age"] if isinstance(c["age"], int) else 0
    if start is not None and date is not None:
        now = int(start // 1)
        if age > 5 and now - date < 5:
            out["AGE_PENALTY"] = None
        elif -5 <= date + age - now <= 5:
            out["DATE_CORRECT"] = None
        else:
            d = max(min(date + age - now, 999999999 * 86400), -999999999 * 86400)
            out["DATE_INCORRECT"] = "is " + words(d) + (" ahead." if d > 0 else " behind.")
    ref = date if date is not None else start
    if lm is not None and ref is not None:
        if lm > ref:
            out["LM_FUTURE"] = None
        else:
            d = ref - lm
            out["LM_PRESENT"] = "changed " + ("in 0 seconds." if d == 0 else words(-(-d // 1)) + " ago.")
    if c["Sunset"] is not None and start is not None and c["Sunset"] < start:
        out["SUNSET_PAST"] = None
    dep = c["dep"]
    if dep == "?1":
        out["DEPRECATION_TRUE"] = None
    elif isinstance(dep, str):
        out["DEPRECATION_BAD_TYPE"] = None
    elif dep is not None and start is not None:
        out["DEPRECATION_FUTURE" if dep > start else "DEPRECATION_PAST"] = iso(dep)
    return out


def check(c, rec):
    want = model(c)
    linter = lib.lint(lib.msg(c["kind"], c["headers"], start=c["start"]))
    got = [n for n in linter.notes if type(n).__name__ in NOTES]
    rec.label(*want)
    known = [t for t in (c["start"], c["Date"], c["Last-Modified"], c["Sunset"]) if t is not None]
    rec.nt(any(t == 0 for t in known) or any(abs(a - b) <= 10 for i, a in enumerate(known) for b in known[:i]))
    same(sorted(type(n).__name__ for n in got), sorted(want), f"findings about time for {c['headers']!r} received at {c['start']!r}")
    for n in got:
        phrase = want[type(n).__name__]
        if phrase:
            text = n.summary + " " + str(n.detail)
            require(phrase in text, "%s says %r, not %r: %r received at %r", type(n).__name__, n.summary, phrase, c["headers"], c["start"])


CHECKS = [Check("times", times, check, n=5000)]
