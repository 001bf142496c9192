"""C19: misdirected, deprecated and unnecessary fields; names that aren't tokens."""
import collections

from hypothesis import strategies as st

from pbt import gen, lib, relate, scenarios, spec
from pbt.core import Check, Skip, require, same

RULE = "a case is a message; non-trivial when it has a misdirected, deprecated, unnecessary or badly named field"
ASSUMPTIONS = ["which fields are defined for requests and responses, and which are deprecated or unnecessary, is a table written down in pbt/spec.py"]
S = st.sampled_from
BAD_NAMES = ["", " ", "a b", "Foo:", "Content-Type ", " Content-Type", "Age\t", "(x)", "f\u00e9o", "a\"b", "<b>", "x/y", "a,b", "Date\n", "\nDate", "a=b", "[x]", "a@b", "a?b", "{a}", "a\\b", "\x00", "a\x7f", "Vary\x0b", "\u00e9", "Set-Cookie;"]
GOOD_NAMES = ["!#$%&'*+-.^_`|~", "0", "x", "Foo_Bar", "Cache_Control", "From-Field", "_", "-", "X--Y"]
KNOWN = list(spec.FIELDS) + list(spec.ALIASES) + spec.MANGLED
CLASSES = {"REQUEST_HDR_IN_RESPONSE", "RESPONSE_HDR_IN_REQUEST", "FIELD_DEPRECATED", "FIELD_NAME_BAD_SYNTAX", "UNNECESSARY_HEADER"}


@st.composite
def line(draw, kind):
    pool = draw(S(["known", "known", "known", "wrong", "wrong", "wrong", "deprecated", "unnecessary", "bad", "good"]))
    if pool == "bad":
        name = draw(S(BAD_NAMES))
    elif pool == "good":
        name = draw(st.one_of(S(GOOD_NAMES), gen.TOKENS))
    elif pool == "deprecated":
        name = draw(S(spec.DEPRECATED + [n for n in spec.FIELDS if spec.FIELDS[n][2]]))
    elif pool == "unnecessary":
        name = draw(S(spec.UNNECESSARY))
    elif pool == "wrong":
        name = draw(S([n for n in KNOWN if spec.misdirected(n, kind)]))
    else:
        name = draw(S(KNOWN))
    value = draw(gen.field_value(spec.canonical(name)))
    if draw(st.integers(0, 9)) == 0:
        value = draw(S([b"", b" ", b",", b", ,", b"a,,b"]))
    how = draw(st.integers(0, 5))
    return (gen._case(name, how if how < 4 else 0).encode("latin-1"), value)


@st.composite
def cases(draw):
    m = draw(st.one_of(gen.message(related=True), scenarios.caching(), scenarios.cors(), scenarios.status(), scenarios.security(), scenarios.conditional()))
    kind = m["kind"]
    hs = list(m["headers"])[:6]
    for l in draw(st.lists(line(kind), min_size=1, max_size=5)):
        hs.insert(draw(st.integers(0, len(hs))), l)
    m = dict(m, headers=hs)
    if draw(st.integers(0, 3)) == 0:
        m["trailers"] = draw(st.lists(line(kind), max_size=3))
    return m


def expect(name, value, kind):
    """The notes of CLASSES one line gets (UNNECESSARY_HEADER counted once at most)."""
    text = spec.wire(name)
    if spec.misdirected(text, kind):
        return ["RESPONSE_HDR_IN_REQUEST" if kind == "request" else "REQUEST_HDR_IN_RESPONSE"]
    if not spec.is_token(text):
        return ["FIELD_NAME_BAD_SYNTAX"]
    out = []
    if spec.deprecated(text):
        out.append("FIELD_DEPRECATED")
    if spec.unnecessary(text) and value.strip(b" \t,"):
        out.append("UNNECESSARY_HEADER")
    return out


def check(m, rec):
    kind = m["kind"]
    if sum(len(n) + len(v) for n, v in m["headers"]) > 30000 or sum(len(n) + len(v) for n, v in m.get("trailers") or ()) > 30000:
        raise Skip("near the section size limit")

    def keep(name):
        text = spec.wire(name)
        return spec.is_token(text) and not spec.misdirected(text, kind)

    a, b, gone = relate.unaffected(m, keep, "misdirected or badly named lines")
    want, got = collections.Counter(), collections.Counter()
    for sec in (0, 1):
        for i, (n, v) in enumerate(relate.lines(m, sec)):
            for cls in expect(n, v, kind):
                want[(i, relate.canon(n) if cls != "UNNECESSARY_HEADER" else spec.wire(n).lower(), cls)] += 1
    seen = set()
    for n in lib.all_notes(a.notes):
        cls = type(n).__name__
        if cls in CLASSES:
            require(n.subject.startswith("offset-"), "%s is about %r rather than a line", cls, n.subject)
            key = (int(n.subject[7:]), str(n.vars["field_name"]).lower(), cls)
            if cls == "UNNECESSARY_HEADER":  # one per list member
                if key in seen and want[key] <= got[key]:
                    continue
                seen.add(key)
            got[key] += 1
    same(sorted(got.elements()), sorted(want.elements()), f"reports (line, field, kind) for {kind} {[n for n, _ in m['headers']]} and trailers {[n for n, _ in m.get('trailers') or ()]}")
    for (sec, i), n in gone:
        require(type(n).__name__ in relate.PER_LINE, "%r, which should be ignored, gave %s", relate.lines(m, sec)[i][0], type(n).__name__)
    for sec, section in ((0, a.headers), (1, a.trailers)):
        for n, _ in relate.lines(m, sec):
            text = spec.wire(n)
            if spec.misdirected(text, kind):
                require(section.parsed.get(text.lower()) in (None, []), "%s has a value in a %s: %r", text, kind, section.parsed.get(text.lower()))
                require(not any(x.subject == "field-" + spec.canonical(text).lower() and spec.wire(n).lower() == text.lower() and type(x).__name__ not in CROSS and sec == 0 and not m.get("trailers") for x in a.notes),
                        "%s in a %s has findings of its own: %r", text, kind, [type(x).__name__ for x in a.notes if x.subject == "field-" + spec.canonical(text).lower()])
    rec.nt(bool(want))
    rec.label(*{k[2] for k in want})


# findings about a field that doesn't need to be there
CROSS = {"MISSING_USER_AGENT", "CORS_PREFLIGHT_REQ_NO_ORIGIN"}


def enum_cases(tier):
    """Every known field in each kind of message, in headers and trailers, with its example values."""
    out = []
    for name in KNOWN + spec.DEPRECATED + spec.UNNECESSARY:
        ent = gen.CORPUS.get(spec.canonical(name), {"inputs": []})
        seeds = sorted({l for ls in ent["inputs"] for l in ls})[:4] or ["x"]
        for kind in ("request", "response"):
            for v in seeds:
                for n in (name, name.upper()):
                    h = [(n.encode(), gen.latin(v))]
                    out.append(lib.msg(kind, h))
                    out.append(lib.msg(kind, [(b"Foo", b"x")], trailers=[(b"Bar", b"x")] + h))
    for bad in BAD_NAMES:
        out.append(lib.msg("response", [(bad.encode("latin-1"), b"x"), (b"Foo", b"x")]))
    return out


CHECKS = [
    Check("every field", None, check, enum=enum_cases, note="every known field in each kind of message"),
    Check("lines", cases, check, n=9000, note="reference model of the reports per line; leaving out ignored lines changes nothing else"),
]
