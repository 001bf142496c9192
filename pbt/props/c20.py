"""C20: recorded text, line positions, encodings and sizes."""
import collections

from hypothesis import strategies as st

from pbt import gen, lib, relate, scenarios, spec
from pbt.core import Check, require, same
from pbt.props import c19

RULE = "a case is a message; non-trivial when a line is oversized or not ASCII, or a note points at a line other than the first"
ASSUMPTIONS = ["sizes count the bytes of names and values; the limits are 8192 per line and 32768 per section"]
S = st.sampled_from
FIELD_MAX, TOTAL_MAX = 8192, 32768


@st.composite
def sized(draw):
    """A line whose size is near a limit, or large enough to add up to one."""
    name = draw(S([b"Foo", b"X-A", b"Server", b"Accept", b"Age", b"Set-Cookie", b"Cookie", b"Bad Name", b"Vary", b"ETag", b"User-Agent", b"X-Powered-By"]))
    size = draw(st.one_of(S([FIELD_MAX - 1, FIELD_MAX, FIELD_MAX + 1, FIELD_MAX + 100, 4096, 8000]), st.integers(1000, 9000)))
    fill = draw(S([b"a", b"a", b" ", b"\xe9", b"a,", b"\x00"]))
    return (name, (fill * size)[: max(0, size - len(name))])


@st.composite
def lines(draw, kind):
    shape = draw(S(["plain", "plain", "plain", "one big", "many big", "exact", "one huge"]))
    hs = draw(st.lists(st.one_of(c19.line(kind), gen.field(kind)), max_size=6))
    if shape == "one big":
        hs.insert(draw(st.integers(0, len(hs))), draw(sized()))
    elif shape == "many big":
        for l in draw(st.lists(sized(), min_size=3, max_size=6)):
            hs.insert(draw(st.integers(0, len(hs))), l)
    elif shape == "one huge":  # one line is all there is to it
        name = draw(S([b"Foo", b"Server", b"Cookie", b"Accept"]))
        line = (name, b"a" * (draw(S([TOTAL_MAX, TOTAL_MAX + 1, TOTAL_MAX + 8, 40000, 70000])) - draw(S([0, len(name)]))))
        hs = [line] if draw(st.booleans()) else hs[:2] + [line]
    elif shape == "exact":
        total = TOTAL_MAX + draw(S([-1, 0, 0, 1, 2]))
        used = sum(len(n) + len(v) for n, v in hs)
        while total - used > 9:
            n = min(total - used, draw(S([8000, 7000, FIELD_MAX])))
            hs.insert(draw(st.integers(0, len(hs))), (b"X-Fill", b"a" * (n - 6)))
            used += n
        if total > used:
            hs.insert(draw(st.integers(0, len(hs))), (b"x" * (total - used), b""))
    if draw(st.integers(0, 3)) == 0:
        hs = [(n + b"\xc3\xa9" if draw(st.integers(0, 3)) == 0 else n, v + draw(S([b"", b"", b"\xe9", b"\x80", b"\x7f", b"\xff"]))) for n, v in hs]
    return hs


@st.composite
def cases(draw):
    kind = draw(S(["response", "request"]))
    m = lib.msg(kind, draw(lines(kind)))
    if draw(st.integers(0, 2)) == 0:
        m["trailers"] = draw(lines(kind))
    return m


def text_of(name, value):
    return (bytes(b for b in name if b < 128).decode("ascii"), "".join(map(chr, value)))


def digits(text):
    return "".join(c for c in str(text) if c.isdigit())


def check(m, rec):
    l = lib.lint(m)
    want, got = collections.Counter(), collections.Counter()
    blocks, sizes = [], []
    for sec, section in ((0, l.headers), (1, l.trailers)):
        ls = relate.lines(m, sec)
        same(section.text, [text_of(n, v) for n, v in ls], "recorded trailers" if sec else "recorded headers")
        total = 0
        for i, (n, v) in enumerate(ls):
            total += len(n) + len(v)
            canon = relate.canon(n)
            if any(b > 127 for b in n):
                want[i, spec.wire(n).lower(), "FIELD_NAME_ENCODING"] += 1
            if any(b > 127 for b in v):
                want[i, spec.wire(n).lower(), "FIELD_VALUE_ENCODING"] += 1
            if len(n) + len(v) > FIELD_MAX:
                want[i, canon, "FIELD_TOO_LARGE"] += 1
                sizes.append((i, "%d" % (len(n) + len(v))))
        if total > TOTAL_MAX:
            blocks.append(("field-block", "trailer" if sec else "header", "%d" % total))
        same(section.size, total, "size of the trailers" if sec else "size of the headers")
    for n in l.notes:
        cls = type(n).__name__
        if cls in ("FIELD_NAME_ENCODING", "FIELD_VALUE_ENCODING", "FIELD_TOO_LARGE"):
            require(n.subject.startswith("offset-"), "%s has subject %r", cls, n.subject)
            got[int(n.subject[7:]), str(n.vars["field_name"]).lower(), cls] += 1
        if n.subject.startswith("offset-"):
            # must be the position of a line of the field it names
            require(relate.locate(n, m), "%s about %r is attributed to line %s of %r / %r", cls, n.vars.get("field_name"), n.subject[7:], [k for k, _ in m["headers"]], [k for k, _ in m.get("trailers") or ()])
            rec.nt(n.subject != "offset-0")
    same(sorted(got.elements()), sorted(want.elements()), "encoding and size reports (line, field, report)")
    found = [n for n in l.notes if type(n).__name__ == "FIELD_SECTION_TOO_LARGE"]
    same([(n.subject, str(n.vars["field_type"]), digits(n.vars["section_size"])) for n in found], blocks, "reports of large sections (subject, which, size)")
    require(all(digits(b) in digits(n.summary) for n, (_, _, b) in zip(found, blocks)), "sizes that %r give", [n.summary for n in found])
    found = [n for n in l.notes if type(n).__name__ == "FIELD_TOO_LARGE"]
    same([(int(n.subject[7:]), digits(n.vars["field_size"])) for n in found], sizes, "reports of large lines (line, size)")
    rec.nt(bool(want) or bool(blocks))
    rec.label(*{k[2] for k in want})
    if blocks:
        rec.label("FIELD_SECTION_TOO_LARGE")


# --- each line's own findings are those it gets on its own -----------------------------------

@st.composite
def moved(draw):
    """A line whose findings are about itself, and lines of other names to put before it."""
    kind = draw(S(["response", "request"]))
    name = draw(S([n for n in spec.FIELDS if spec.FIELDS[n][1] in ("list", "single", "broken") and kind in spec.kinds_of(n)]))
    line = (name.encode(), draw(gen.field_value(name)))
    others = [l for l in draw(st.lists(c19.line(kind), min_size=1, max_size=5)) if relate.canon(l[0]) != name.lower()]
    return {"kind": kind, "line": line, "others": others}


def moves(case, rec):
    line, others = case["line"], case["others"]

    def own(linter, i):
        out = []
        for n in linter.notes:
            if n.subject == f"offset-{i}" and str(n.vars["field_name"]).lower() == line[0].decode().lower():
                out.append(lib.note_key(n, subject=False))
        return out

    alone = own(lib.lint(lib.msg(case["kind"], [line])), 0)
    for i in {0, len(others) // 2, len(others)}:
        hs = others[:i] + [line] + others[i:]
        l = lib.lint(lib.msg(case["kind"], hs))
        now = own(l, i)
        same(sorted(map(repr, now)), sorted(map(repr, alone)), f"findings about line {i} of {[n for n, _ in hs]}, compared with that line alone")
    rec.nt(bool(alone))


CHECKS = [
    Check("recorded", cases, check, n=9000, note="reference model of text, encodings, sizes and positions"),
    Check("moved", moved, moves, n=6000, note="metamorphic: a line's own findings follow it to wherever it is in the section"),
]
