"""C17: Set-Cookie and Cookie."""
import calendar
import collections
import datetime

from hypothesis import strategies as st

from pbt import gen, lib, scenarios
from pbt.core import Check, Skip, require, same

RULE = "a case is a response with Set-Cookie lines, a request with Cookie lines, or a cookie date; non-trivial when an attribute or date is present"
ASSUMPTIONS = ["the reference is RFC 6265 Section 5.1.1, 5.1.4 and 5.2, with nameless cookies, SameSite, Partitioned and prefixes as in 6265bis; Max-Age values that are not all digits are ignored",
               "an attribute that is no longer valid is reported, not obeyed"]
S = st.sampled_from
MONTHS = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"]
YEAR400 = 34560000


# --- reference: dates ---------------------------------------------------------------------

def is_delimiter(c):
    o = ord(c)
    return o == 9 or 0x20 <= o <= 0x2F or 0x3B <= o <= 0x40 or 0x5B <= o <= 0x60 or 0x7B <= o <= 0x7E


def tokens(text):
    out, cur = [], ""
    for c in text:
        if is_delimiter(c):
            if cur:
                out.append(cur)
            cur = ""
        else:
            cur += c
    return out + ([cur] if cur else [])


def digits(s, lo, hi):
    """The number s begins with, if it has lo..hi digits and no digit follows; with the rest."""
    n = 0
    while n < len(s) and s[n] in "0123456789":
        n += 1
    return (int(s[:n]), s[n:]) if lo <= n <= hi else None


def date(text):
    """Seconds since the epoch, or the reason there's none."""
    time = day = month = year = None
    for t in tokens(text):
        if time is None:
            parts, rest = [], t
            for i in range(3):
                d = digits(rest, 1, 2)
                if d is None or (i < 2 and not d[1].startswith(":")):
                    break
                parts.append(d[0])
                rest = d[1][1:]
            if len(parts) == 3:
                time = parts
                continue
        if day is None and digits(t, 1, 2):
            day = digits(t, 1, 2)[0]
            continue
        if month is None and t[:3].lower() in MONTHS:
            month = MONTHS.index(t[:3].lower()) + 1
            continue
        if year is None and digits(t, 2, 4):
            year = digits(t, 2, 4)[0]
            continue
    if None in (time, day, month, year):
        return None
    if 70 <= year <= 99:
        year += 1900
    elif year <= 69:
        year += 2000
    if year < 1601 or time[0] > 23 or time[1] > 59 or time[2] > 59:
        return None
    try:
        return int((datetime.datetime(year, month, day, *time) - datetime.datetime(1970, 1, 1)).total_seconds())
    except ValueError:
        return None


# --- reference: one line ------------------------------------------------------------------

def parse(line, base_path, now):
    """((name, value, attributes) or None, [(finding, what it names)])"""
    notes, attrs = [], []
    pair, _, rest = line.partition(";")
    if "=" in pair:
        name, _, value = pair.partition("=")
    else:
        name, value = "", pair
    name, value = name.strip(" \t"), value.strip(" \t")
    if not name and not value:
        return None, [("SET_COOKIE_NO_NAME", None)]
    if len(name) + len(value) > 4096:
        notes.append(("SET_COOKIE_TOO_LARGE", None))
    if len(value) > 128:
        notes.append(("SET_COOKIE_VALUE_TOO_LARGE", f"{len(value):,} bytes"))
    seen, long_lived = set(), False
    avs = rest.split(";") if rest else []
    if avs and avs[-1] == "":
        avs.pop()
    for av in avs:
        key, _, val = av.partition("=")
        key, val = key.strip(" \t"), val.strip(" \t")
        low = key.lower()
        if low in seen:
            notes.append(("SET_COOKIE_ATTRIBUTE_DUP", key))
        seen.add(low)
        if low == "expires":
            when = date(val)
            if when is None:
                notes.append(("SET_COOKIE_BAD_DATE", None))
                continue
            attrs.append(("Expires", when))
            if now and when > now + YEAR400 and not long_lived:
                long_lived = True
                notes.append(("SET_COOKIE_LIFETIME_TOO_LONG", None))
        elif low == "max-age":
            if not val:
                notes.append(("SET_COOKIE_EMPTY_MAX_AGE", None))
                continue
            if val[0] == "0" and len(val) > 1:
                notes.append(("SET_COOKIE_LEADING_ZERO_MAX_AGE", None))
            if set(val) - set("0123456789"):
                notes.append(("SET_COOKIE_NON_DIGIT_MAX_AGE", None))
                continue
            attrs.append(("Max-Age", int(val)))
            if int(val) > YEAR400 and not long_lived:
                long_lived = True
                notes.append(("SET_COOKIE_LIFETIME_TOO_LONG", None))
        elif low == "domain":
            if not val:
                notes.append(("SET_COOKIE_EMPTY_DOMAIN", None))
                continue
            attrs.append(("Domain", (val[1:] if val[0] == "." else val).lower()))
        elif low == "path":
            if val[:1] != "/":
                if base_path[:1] != "/" or base_path.count("/") == 1:
                    val = "/"
                else:
                    val = base_path[:base_path.rindex("/")]
            attrs.append(("Path", val))
        elif low == "secure":
            attrs.append(("Secure", ""))
        elif low == "httponly":
            attrs.append(("HttpOnly", ""))
        elif low == "partitioned":
            attrs.append(("Partitioned", ""))
        elif low == "samesite":
            if val.lower() in ("strict", "lax", "none", ""):
                attrs.append(("SameSite", val.lower().capitalize() or "Lax"))
            else:
                notes.append(("SET_COOKIE_UNKNOWN_ATTRIBUTE_VALUE", val))
        elif low == "priority":
            notes.append(("SET_COOKIE_PRIORITY", None))
        elif low == "version":
            notes.append(("SET_COOKIE_VERSION", None))
        else:
            notes.append(("SET_COOKIE_UNKNOWN_ATTRIBUTE", key))
    secure = ("Secure", "") in attrs
    if ("SameSite", "None") in attrs and not secure:
        notes.append(("SET_COOKIE_NOT_SECURE", None))
    if ("Partitioned", "") in attrs and not secure:
        notes.append(("SET_COOKIE_PARTITIONED_NO_SECURE", None))
    prefix = name.lower()
    if prefix.startswith(("__secure-", "__host-")) and not secure:
        notes.append(("SET_COOKIE_PREFIX_SECURE_MISSING", None))
    if prefix.startswith("__host-"):
        if ("Path", "/") not in attrs:
            notes.append(("SET_COOKIE_PREFIX_HOST_BAD_PATH", None))
        notes += [("SET_COOKIE_PREFIX_HOST_BAD_DOMAIN", None)] * sum(k == "Domain" for k, _ in attrs)
    return (name, value, attrs), notes


def hardened(cookie):
    attrs = cookie[2]
    return ("Secure", "") in attrs and ("HttpOnly", "") in attrs and (("SameSite", "Strict") in attrs or ("SameSite", "Lax") in attrs)


# --- generators ---------------------------------------------------------------------------

OWS = S(["", "", "", "", " ", "  ", "\t", " \t "])
TIMES = st.one_of(
    st.tuples(st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)).map(lambda t: "%02d:%02d:%02d" % t),
    S(["1:2:3", "00:00:00", "23:59:59", "24:00:00", "12:60:00", "12:00:60", "12:00", "123:00:00", "12:00:001", "12:00:00x", "12:00:00:00", "12:00:00Z", "::", "1:2", "9:09:9"]))
DAYS = st.one_of(st.integers(1, 31).map(lambda d: "%02d" % d), S(["1", "9", "0", "00", "30", "31", "32", "1st", "2nd", "29", "007", "31x2", "10:"]))
MON = st.one_of(S(MONTHS), S(["Jan", "FEB", "March", "sept", "Decx1", "ma", "foo", "jun.", "Feb"]))
YEARS = st.one_of(st.integers(1601, 9999).map(str), S(["69", "70", "99", "00", "0", "1600", "1601", "123", "12345", "2021x", "2024", "2023", "1900", "2000", "071"]))
JUNK = S(["Wed", "GMT", "+0000", "UTC", "x", "\xff", "12", "2020", "Sunday", "\x01", ":", "-", "a1"])
DELIM = S([" ", " ", "-", ", ", "/", "\t", ";", "--", "(", "~", "@", "", "."])


@st.composite
def dates(draw):
    how = draw(st.integers(0, 9))
    if how < 2:
        when = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=draw(st.integers(-3 * 10**9, 9 * 10**9)))
        return when.strftime(draw(S(["%a, %d %b %Y %H:%M:%S GMT", "%A, %d-%b-%y %H:%M:%S GMT", "%a %b %d %H:%M:%S %Y", "%Y %b %d %H:%M:%S", "%H:%M:%S %d %b %Y"])))
    parts = [draw(TIMES), draw(DAYS), draw(MON), draw(YEARS)] + draw(st.lists(JUNK, max_size=2))
    if how == 2:
        parts.pop(draw(st.integers(0, len(parts) - 1)))
    elif how == 3:
        parts.append(draw(st.one_of(TIMES, DAYS, MON, YEARS)))
    if how < 7:
        parts = draw(st.permutations(parts))
    out = parts[0]
    for p in parts[1:]:
        out += draw(DELIM) + p
    return out


NAMES = S(["a", "b", "SID", "__Secure-a", "__Host-a", "__host-", "__SECURE-x", "__Hosta", "_Host-a", "__Host-b", "", "n a", "\u00e9", "<b>", "a*b", "A"])
VALUES = st.one_of(S(["", "1", "x=y", "a,b", '"q"', "\xa0", "31d4d96e407aad42"]), st.integers(120, 140).map("v".__mul__), S([4090, 4094, 4095, 4096, 4097]).map("v".__mul__))
MAX_AGES = st.one_of(st.integers(0, 10**9).map(str), S(["34560000", "34560001", "34559999", "0", "00", "01", "-1", "+1", "1.0", "1 0", "", "x", "0x1", "\xb2", "9" * 30, "34560001 ", "1_000"]))


@st.composite
def attribute(draw):
    kind = draw(S(["Expires", "Max-Age", "Domain", "Path", "Secure", "HttpOnly", "SameSite", "Partitioned", "Priority", "Version", "Foo", "", "Expires", "Secure", "Path", "SameSite"]))
    name = gen._case(kind, draw(st.integers(0, 3)))
    if kind == "Expires":
        v = draw(dates()).replace(";", " ")
    elif kind == "Max-Age":
        v = draw(MAX_AGES)
    elif kind == "Domain":
        v = draw(S(["example.com", ".example.com", "", ".", "Example.COM", "..a", "a b", "\u00e9.com"]))
    elif kind == "Path":
        v = draw(S(["/", "/foo", "", "foo", "/Foo/ ", "//", " /x", "\\", "/a=b"]))
    elif kind == "SameSite":
        v = draw(S(["Strict", "lax", "NONE", "None", "", "foo", "Lax, Strict", "no ne", "\xa0lax"]))
    elif kind == "Priority":
        v = draw(S(["High", ""]))
    else:
        v = draw(S([None, None, None, "", "1", "x=y"]))
    if v is None:
        return draw(OWS) + name + draw(OWS)
    return draw(OWS) + name + draw(OWS) + "=" + draw(OWS) + v + draw(OWS)


@st.composite
def cookie_line(draw):
    how = draw(st.integers(0, 11))
    if how == 0:
        pair = draw(S(["", "=", " = ", "foo", "=v", "foo=", ";", "\xa0", " \t"]))
    else:
        pair = draw(OWS) + draw(NAMES) + draw(OWS) + "=" + draw(OWS) + draw(VALUES) + draw(OWS)
    line = ";".join([pair] + draw(st.lists(attribute(), max_size=5))) + draw(S(["", "", "", ";", "; ", ";;"]))
    return draw(OWS) + line + draw(OWS)


BASES = [None, "", "http://example.com", "http://example.com/", "http://example.com/a", "https://example.com/a/b", "http://example.com/a/b/c?x=/y/z#/q", "http://example.com//", "a/b/c", "mailto:x/y/z", "/p/q/r"]


@st.composite
def responses(draw):
    hs = [(gen._case("Set-Cookie", draw(st.integers(0, 3))).encode(), l.encode("latin-1")) for l in draw(st.lists(cookie_line(), min_size=1, max_size=4))]
    if draw(st.integers(0, 3)) == 0:
        hs.insert(draw(st.integers(0, len(hs))), (b"Cache-Control", b"no-cache"))
    return lib.resp(hs, base=draw(S(BASES)), start=draw(st.one_of(st.none(), scenarios.near().map(float), S([1.0, 1e9, 2e9]))))


def split_url(base):
    from urllib.parse import urlsplit
    return urlsplit(base or "").path


def check(m, rec):
    import re
    linter = lib.lint(m)
    path = split_url(m.get("base"))
    want_value, want_notes, names = [], collections.Counter(), []
    for i, (n, v) in enumerate(m["headers"]):
        if n.lower() != b"set-cookie":
            continue
        text = v.decode("latin-1").strip(" \t")
        cookie, notes = parse(text, path, m.get("start"))
        name = cookie[0] if cookie else None
        for cls, what in notes:
            want_notes[(f"offset-{i}", cls, name, what)] += 1
        if cookie:
            want_value.append(cookie)
    ids = [c[0] for c in want_value]
    dups = sorted(k for k, c in collections.Counter(ids).items() if c > 1)
    if dups:
        want_notes[("field-set-cookie", "SET_COOKIE_NAME_DUP", ", ".join(dups), None)] += 1
    hard = [c[0] for c in want_value if hardened(c)]
    got_notes = collections.Counter()
    seen_hard = []
    for n in lib.all_notes(linter.notes):
        cls, v = type(n).__name__, n.vars
        if not cls.startswith("SET_COOKIE"):
            continue
        if cls == "SET_COOKIE_HARDENED":
            same(n.subject, "field-set-cookie", "subject of SET_COOKIE_HARDENED")
            seen_hard.append(str(v["cookie_names"]))
            continue
        what = {"SET_COOKIE_VALUE_TOO_LARGE": "set_cookie_value_length", "SET_COOKIE_ATTRIBUTE_DUP": "attribute", "SET_COOKIE_UNKNOWN_ATTRIBUTE": "attribute",
                "SET_COOKIE_UNKNOWN_ATTRIBUTE_VALUE": "attribute_value"}.get(cls)
        who = v["cookie_names"] if cls == "SET_COOKIE_NAME_DUP" else v.get("cookie_name")
        got_notes[(n.subject, cls, who, str(v[what]) if what else None)] += 1
    same(len(seen_hard), 1 if hard else 0, f"SET_COOKIE_HARDENED findings for {m['headers']}")
    if all(hard) and hard and not any(c in n for n in hard for c in "`\\<>*&,"):
        same(re.findall(r"`([^`]*)`", seen_hard[0]), hard, "cookies named as hardened")
    got = linter.headers.parsed.get("set-cookie")
    if "set-cookie" in linter.headers.parsed or want_value:
        same(lib.plain(got), lib.plain(want_value), f"cookies for {m['headers']} (base {m.get('base')!r})")
    same(sorted(got_notes.items(), key=repr), sorted(want_notes.items(), key=repr), f"cookie findings for {m['headers']} (base {m.get('base')!r}, now {m.get('start')})")
    rec.nt(any(c[2] for c in want_value))
    rec.label(*{k[1] for k in want_notes}, *{a for c in want_value for a, _ in c[2]})


def check_date(case, rec):
    text, = case
    if ";" in text:
        raise Skip("a semicolon ends the attribute")
    linter = lib.lint(lib.resp([(b"Set-Cookie", ("a=b; Expires=" + text).encode("latin-1"))]))
    want = date(text)
    cookies = linter.headers.parsed["set-cookie"]
    same(len(cookies), 1, f"cookies with Expires {text!r}")
    same(lib.plain(cookies[0][2]), lib.plain([] if want is None else [("Expires", want)]), f"attributes for Expires={text!r}")
    same("SET_COOKIE_BAD_DATE" in lib.names(linter), want is None, f"SET_COOKIE_BAD_DATE for {text!r}")
    rec.nt(want is not None)
    rec.label("date" if want is not None else "no date")


@st.composite
def requests(draw):
    item = st.one_of(
        st.tuples(OWS, NAMES, S(["=", "=", "=", ""]), VALUES.filter(lambda v: len(v) < 4000), OWS).map("".join),
        S(["", " ", "=", "==", "a=b=c", "$Version=1", "\xa0", "a=\x85", "\x0bx=y"]))
    lines = [draw(S(["; ", ";", " ; ", ";;"])).join(draw(st.lists(item, max_size=5))) for _ in range(draw(st.integers(1, 3)))]
    return lib.req([(gen._case("Cookie", draw(st.integers(0, 3))).encode(), l.encode("latin-1")) for l in lines])


def check_request(m, rec):
    linter = lib.lint(m)
    want = []
    for _, v in m["headers"]:
        pairs = []
        for item in v.decode("latin-1").split(";"):
            item = item.strip(" \t")
            if item:
                n, eq, val = item.partition("=")
                pairs.append((n, val) if eq else ("", item))
        want.append(pairs)
    got = [[(c.name, c.value) for c in line] for line in linter.headers.parsed["cookie"]]
    same(got, want, f"cookies in {m['headers']}")
    rec.nt(any(len(p) > 1 for p in want))


@st.composite
def lifetimes(draw):
    """Expires at and around 400 days from now."""
    now = draw(scenarios.near())
    attrs = []
    for _ in range(draw(st.integers(1, 3))):
        d = draw(S([-1, 0, 0, 1, 1, 60, -86400, 86400]))
        if draw(st.booleans()):
            attrs.append("Expires=" + scenarios.imf(now + YEAR400 + d).decode())
        else:
            attrs.append(f"Max-Age={YEAR400 + d}")
    return lib.resp([(b"Set-Cookie", "; ".join(["a=b"] + attrs).encode())], start=float(now) + draw(S([0.0, 0.0, 0.5])))


CHECKS = [
    Check("lifetimes", lifetimes, check, n=600, note="Expires and Max-Age at and around the longest lifetime"),
    Check("responses", responses, check, n=9000, note="reference implementation of the RFC 6265 algorithm and of the reports"),
    Check("dates", lambda: st.tuples(dates()), check_date, n=9000, note="reference implementation of RFC 6265 cookie dates"),
    Check("requests", requests, check_request, n=3000, note="Cookie pairs, line by line"),
]
