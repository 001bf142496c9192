"""Structured Field Values (RFC 9651): a reference parser, a serialiser with free choices, and a generator.

Plain data: bool, int, ("dec", thousandths), ("str", s), ("tok", s), ("bin", b), ("date", n), ("disp", s);
an item is (value, params), an inner list is ([items], params), params and dictionaries are {key: ...}.
"""
import base64
import binascii
import datetime
import decimal

from hypothesis import strategies as st

LC, DIG = "abcdefghijklmnopqrstuvwxyz", "0123456789"
ALPHA = LC + LC.upper()
TCHAR = set(ALPHA + DIG + "!#$%&'*+-.^_`|~")
S = st.sampled_from


class Bad(Exception):
    pass


class Unclear(Exception):
    pass


class Parser:
    def __init__(self, text):
        self.t, self.i = text, 0
        self.dups = []

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ""

    def take(self, c):
        if self.peek() != c:
            raise Bad(f"expected {c!r}")
        self.i += 1

    def sp(self):
        while self.peek() == " ":
            self.i += 1

    def ows(self):
        while self.peek() and self.peek() in " \t":
            self.i += 1

    def top(self, kind):
        if any(ord(c) > 127 for c in self.t):
            raise Bad("not ASCII")
        self.sp()
        out = {"item": self.item, "list": self.list, "dictionary": self.dictionary}[kind]()
        self.sp()
        if self.i < len(self.t):
            raise Bad("trailing")
        return out

    def list(self):
        out = []
        while self.i < len(self.t):
            out.append(self.member())
            self.ows()
            if self.i >= len(self.t):
                break
            self.take(",")
            self.ows()
            if self.i >= len(self.t):
                raise Bad("trailing comma")
        return out

    def dictionary(self):
        out = {}
        while self.i < len(self.t):
            k = self.key()
            if self.peek() == "=":
                self.i += 1
                v = self.member()
            else:
                v = (True, self.params())
            if k in out:
                self.dups.append((k, "dictionary"))
            out[k] = v
            self.ows()
            if self.i >= len(self.t):
                break
            self.take(",")
            self.ows()
            if self.i >= len(self.t):
                raise Bad("trailing comma")
        return out

    def member(self):
        return self.inner() if self.peek() == "(" else self.item()

    def inner(self):
        self.take("(")
        out = []
        while True:
            self.sp()
            if self.peek() == ")":
                self.i += 1
                return out, self.params()
            out.append(self.item())
            if self.peek() not in (" ", ")") or not self.peek():
                raise Bad("inner list")

    def item(self):
        v = self.bare()
        return v, self.params()

    def params(self):
        out = {}
        while self.peek() == ";":
            self.i += 1
            self.sp()
            k = self.key()
            v = True
            if self.peek() == "=":
                self.i += 1
                v = self.bare()
            if k in out:
                self.dups.append((k, "parameter"))
            out[k] = v
        return out

    def key(self):
        s = self.i
        if not self.peek() or self.peek() not in LC + "*":
            raise Bad("key")
        while self.peek() and self.peek() in LC + DIG + "_-.*":
            self.i += 1
        return self.t[s:self.i]

    def bare(self):
        c = self.peek()
        if not c:
            raise Bad("empty")
        if c in DIG + "-":
            return self.number()
        if c == '"':
            return self.string()
        if c in ALPHA + "*":
            s = self.i
            while self.peek() and (self.peek() in TCHAR or self.peek() in ":/"):
                self.i += 1
            return "tok", self.t[s:self.i]
        if c == ":":
            return self.binary()
        if c == "?":
            self.i += 1
            b = self.peek()
            if not b or b not in "01":
                raise Bad("boolean")
            self.i += 1
            return b == "1"
        if c == "@":
            self.i += 1
            n = self.number()
            if not isinstance(n, int):
                raise Bad("date")
            return "date", n
        if c == "%":
            return self.display()
        raise Bad("no item")

    def number(self):
        sign = 1
        if self.peek() == "-":
            sign, self.i = -1, self.i + 1
        s = self.i
        while self.peek() and self.peek() in DIG:
            self.i += 1
        whole = self.t[s:self.i]
        if not whole:
            raise Bad("number")
        if self.peek() != ".":
            if len(whole) > 15:
                raise Bad("too long")
            return sign * int(whole)
        if len(whole) > 12:
            raise Bad("too long")
        self.i += 1
        s = self.i
        while self.peek() and self.peek() in DIG:
            self.i += 1
        frac = self.t[s:self.i]
        if not 1 <= len(frac) <= 3:
            raise Bad("fraction")
        return "dec", sign * (int(whole) * 1000 + int(frac.ljust(3, "0")))

    def string(self):
        self.i += 1
        out = ""
        while True:
            c = self.peek()
            if not c:
                raise Bad("unterminated")
            self.i += 1
            if c == "\\":
                c = self.peek()
                if not c or c not in '"\\':
                    raise Bad("escape")
                self.i += 1
                out += c
            elif c == '"':
                return "str", out
            elif not 0x20 <= ord(c) < 0x7f:
                raise Bad("string character")
            else:
                out += c

    def binary(self):
        end = self.t.find(":", self.i + 1)
        if end < 0:
            raise Bad("unterminated")
        raw = self.t[self.i + 1:end]
        self.i = end + 1
        if any(c not in ALPHA + DIG + "+/=" for c in raw):
            raise Bad("base64 character")
        try:
            out = base64.b64decode(raw, validate=True)
        except (binascii.Error, ValueError):
            out = b""
        if base64.b64encode(out).decode() != raw:
            raise Unclear  # parsers may or may not insist on padding and zero pad bits (RFC 9651, Section 4.2.7)
        return "bin", out

    def display(self):
        self.i += 1
        self.take('"')
        out = b""
        while True:
            c = self.peek()
            if not c or not 0x20 <= ord(c) < 0x7f:
                raise Bad("display string")
            self.i += 1
            if c == "%":
                h = self.t[self.i:self.i + 2]
                if len(h) < 2 or any(x not in DIG + "abcdef" for x in h):
                    raise Bad("percent")
                out += bytes([int(h, 16)])
                self.i += 2
            elif c == '"':
                try:
                    return "disp", out.decode("utf-8")
                except UnicodeError:
                    raise Bad("utf-8") from None
            else:
                out += c.encode()


def parse(text, kind):
    """(data, repeated keys) or None if it isn't one."""
    p = Parser(text)
    try:
        return p.top(kind), p.dups
    except Bad:
        return None


def plain(v):
    """What http_sf gives, as plain data."""
    name = type(v).__name__
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if isinstance(v, bool):
        return v
    if name == "Token":
        return "tok", str(v)
    if name == "DisplayString":
        return "disp", str(v)
    if isinstance(v, str):
        return "str", v
    if isinstance(v, bytes):
        return "bin", v
    if isinstance(v, datetime.datetime):
        return "date", int(v.timestamp())
    if isinstance(v, (decimal.Decimal, float)):
        return "dec", int(decimal.Decimal(str(v)) * 1000)
    return v


# generation: (data, text) pairs
KEYS = st.one_of(S(["a", "b", "c", "report-to", "fwd", "hit", "ttl", "max-age", "include_subdomains", "*", "a*", "z9_.-*", "key", "match", "u", "q", "self"]), st.text(alphabet=LC + DIG + "_-.*", min_size=1, max_size=5).map(lambda s: s if s[0] in LC + "*" else "k" + s))
PRINT = "".join(map(chr, range(0x20, 0x7f)))
TOKS = st.one_of(S(["a", "foo", "*", "require-corp", "same-origin", "A/b:c", "t!#$%&'*+-.^_`|~:/9", "uri-miss", "text/html", "GET"]),
                 st.text(alphabet="".join(sorted(TCHAR)) + ":/", max_size=6).flatmap(lambda r: S(ALPHA + "*").map(lambda c: c + r)))


def esc(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def disp(s):
    out = ""
    for b in s.encode("utf-8"):
        out += f"%{b:02x}" if b in b'%"' or not 0x20 <= b < 0x7f else chr(b)
    return '%"' + out + '"'


INTS = st.one_of(S([0, 1, -1, 60, 999999999999999, -999999999999999, 3600]), st.integers(-10**15 + 1, 10**15 - 1))


@st.composite
def decimals(draw):
    whole, n = draw(st.one_of(st.integers(0, 20), S([0, 999999999999]))), draw(st.integers(1, 3))
    frac = draw(st.text(alphabet=DIG, min_size=n, max_size=n))
    sign = draw(S(["", "-"]))
    v = whole * 1000 + int(frac.ljust(3, "0"))
    return ("dec", -v if sign else v), f"{sign}{whole}.{frac}"


def bare(dates=True):
    opts = [
        INTS.map(lambda n: (n, str(n))), S([(True, "?1"), (False, "?0")]), TOKS.map(lambda t: (("tok", t), t)), TOKS.map(lambda t: (("tok", t), t)),
        st.text(alphabet=PRINT, max_size=8).map(lambda s: (("str", s), esc(s))), S(["", "a", "endpoint", 'q"\\', "/path?x=1,2;3", "(a)"]).map(lambda s: (("str", s), esc(s))),
        decimals(), st.binary(max_size=8).map(lambda b: (("bin", b), ":" + base64.b64encode(b).decode() + ":")),
        st.text(max_size=4).filter(lambda s: not any(0xd800 <= ord(c) < 0xe000 for c in s)).map(lambda s: (("disp", s), disp(s))),
    ]
    if dates:
        opts.append(st.integers(-2**31, 2**33).map(lambda n: (("date", n), f"@{n}")))
    return st.one_of(opts)


@st.composite
def params(draw):
    out, text = {}, ""
    for k in draw(st.lists(KEYS, max_size=3)):
        v, t = draw(bare())
        if v is True:
            t = draw(S(["", "=?1"]))
        else:
            t = "=" + t
        out[k] = v
        text += ";" + draw(S(["", "", " ", "  "])) + k + t
    return out, text


@st.composite
def items(draw):
    v, t = draw(bare())
    p, pt = draw(params()) if draw(st.booleans()) else ({}, "")
    return (v, p), t + pt


@st.composite
def members(draw):
    if draw(st.integers(0, 3)):
        return draw(items())
    got = draw(st.lists(items(), max_size=3))
    p, pt = draw(params()) if draw(st.booleans()) else ({}, "")
    pad = S(["", "", " "])
    return ([g[0] for g in got], p), "(" + draw(pad) + draw(S([" ", " ", "  "])).join(g[1] for g in got) + draw(pad) + ")" + pt


@st.composite
def lists(draw, lo=1):
    got = draw(st.lists(members(), min_size=lo, max_size=4))
    return [g[0] for g in got], [g[1] for g in got]


@st.composite
def dictionaries(draw, lo=1):
    out, texts = {}, []
    for _ in range(draw(st.integers(lo, 4))):
        k = draw(KEYS)
        (v, p), t = draw(members())
        if v is True and draw(st.booleans()):
            t = t[2:]
        else:
            t = "=" + t
        out[k] = (v, p)
        texts.append(k + t)
    return out, texts
