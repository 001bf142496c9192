"""C33: a field with an unrecognised name changes nothing but its own findings."""
from hypothesis import strategies as st

from pbt import gen, lib, pool, relate, scenarios, spec
from pbt.core import Check, Skip, require, same

RULE = "a case is a message and lines with unknown names; non-trivial when the rest of the message has at least three findings"
ASSUMPTIONS = ["the known names are those of the table in pbt/spec.py; sections stay under the size limits"]
S = st.sampled_from
MARK = b"Zq-"  # no known name starts with this
NEAR = ["X-Content-Type-Option", "Content-Typ", "Cache-Controls", "Set_Cookie", "Cache_Control", "XVary", "Date-", "-Date", "Accept-", "Access-Control-Allow", "Cookie-Set", "From-Field", "Etagg", "Content", "Strict-Transport-Securit",
        "Transfer_Encoding", "Content_Length", "Content--Length", "X-Content-Length", "X-Foo", "Foo", "Refferer", "Forwarded", "X-Forwarded-For", "Priority", "Sec-Fetch-Mode", "Sec-GPC", "X-Request-Id", "X-Cache-Hits", "X-Age",
        "List", "Field", "Utils", "Tests", "HttpListField", "__init__", "_x", "If-None-Matc", "Via-", "Origin2"]


@st.composite
def unknown(draw):
    name = draw(st.one_of(S(NEAR), gen.TOKENS, gen.TOKENS.map(lambda t: "Zq-" + t), S(NEAR).map(str.lower), S(NEAR).map(str.upper)))
    if spec.known(name):
        name = "Zq-" + name
    value = draw(st.one_of(st.binary(max_size=30), gen.ALL_VALUES, st.just(b""), st.just(b"a" * 5000)))
    return (name.encode("latin-1"), value)


@st.composite
def cases(draw, source=None):
    m = draw(source if source is not None else st.one_of(gen.message(), gen.message(), scenarios.caching(), scenarios.cors(), scenarios.security(), scenarios.conditional(), scenarios.status(), scenarios.charset()))
    m = dict(m)
    for key in ("headers", "trailers"):
        if m.get(key) is None and draw(st.integers(0, 3)):
            continue
        hs = list(m.get(key) or [])
        for l in draw(st.lists(unknown(), min_size=0 if key == "trailers" else 1, max_size=3)):
            hs.insert(draw(st.integers(0, len(hs))), l)
        if key == "headers" and not draw(st.integers(0, 15)):
            # many of them, in one place
            at = draw(st.integers(0, len(hs)))
            hs[at:at] = [(b"Zq-%d" % i, b"x") for i in range(draw(S([20, 101, 300, 1000])))]
        m[key] = hs
    rel = m.get("related")
    if rel and draw(st.booleans()):
        hs = list(rel["headers"])
        for l in draw(st.lists(unknown(), min_size=1, max_size=2)):
            hs.insert(draw(st.integers(0, len(hs))), l)
        m["related"] = dict(rel, headers=hs)
        m["rel_before"] = rel["headers"]
    return m


def check(m, rec):
    for sec in (0, 1):
        if sum(len(n) + len(v) for n, v in relate.lines(m, sec)) > 32000:
            raise Skip("near the section size limit")

    def keep(name):
        return spec.known(spec.wire(name)) or not spec.is_token(spec.wire(name))

    a, b, gone = relate.unaffected(m, keep, "lines with unknown names")
    for (sec, i), n in gone:
        require(type(n).__name__ in ("FIELD_NAME_ENCODING", "FIELD_VALUE_ENCODING", "FIELD_TOO_LARGE"), "the unknown field %r has the finding %s", relate.lines(m, sec)[i][0], type(n).__name__)
    before = m.get("rel_before")
    if before is not None:
        # lines with unknown names in the related message
        m2 = dict(m, related=dict(m["related"], headers=before))
        c = lib.lint(m2)
        same(lib.note_keys(a), lib.note_keys(c), "findings with and without unknown fields in the related message")
        ra, rc = lib.results(a), lib.results(c)
        same(ra, rc, "results with and without unknown fields in the related message")
        rec.label("related")
    unk = {spec.wire(n).lower() for sec in (0, 1) for n, _ in relate.lines(m, sec) if not keep(n)}
    for n in a.notes:
        require(not (n.subject.startswith("field-") and n.subject[6:] in unk), "the unknown field %s has the finding %s", n.subject[6:], type(n).__name__)
    rec.nt(len(b.notes) >= 3)
    rec.label("trailers" if m.get("trailers") else "headers")


@st.composite
def trailing(draw):
    "a message, and lines that follow its content: its own, those of a message like it, or any"
    a, b = draw(pool.several(2, 2))
    m = dict(a if draw(st.booleans()) else draw(gen.message(kind=a["kind"])))
    source = [l for x in (m, a, b) if x["kind"] == m["kind"] for l in x["headers"]]
    lines = draw(st.lists(st.one_of(S(source), gen.field(m["kind"])), min_size=1, max_size=4)) if source else [draw(gen.field(m["kind"]))]
    who = "own"
    if m.get("related") and draw(st.booleans()):
        rel = m["related"]
        who = "related"
        lines = draw(st.lists(st.one_of(S(list(rel["headers"]) or lines), gen.field(rel["kind"])), min_size=1, max_size=4))
    return {"m": {k: v for k, v in m.items() if k != "trailers"}, "lines": lines, "who": who}


def check_trailing(c, rec):
    m, lines = c["m"], c["lines"]
    if c["who"] == "related":
        rel = {k: v for k, v in m["related"].items() if k != "trailers"}
        a, b = lib.lint(dict(m, related=rel)), lib.lint(dict(m, related=dict(rel, trailers=lines)))
    else:
        a, b = lib.lint(m), lib.lint(dict(m, trailers=lines))
    extra = [repr(k) for k in lib.note_keys(b)]
    for n in a.notes:
        k = repr(lib.note_key(n))
        require(k in extra, "%s (%s) is found only when nothing follows the content", type(n).__name__, n.subject, trailers=lines)
        extra.remove(k)
    if c["who"] == "related":
        same(extra, [], "found only when a trailer follows the content of the related message", trailers=lines)
    else:
        theirs = {f"offset-{i}" for i in range(len(lines))} | {"field-block"} | {"field-" + relate.canon(n).lower() for n, _ in lines}
        for n in b.notes:
            if repr(lib.note_key(n)) in extra:
                require(set(n.subject.split()) & theirs, "%s (%s) is found only when a trailer follows the content", type(n).__name__, n.subject, trailers=lines)
    ra, rb = lib.results(a), lib.results(b)
    same(ra.pop("parsed")[0], rb.pop("parsed")[0], "the headers that are parsed", trailers=lines)
    same(ra.pop("text")[0], rb.pop("text")[0], "the headers that are recorded", trailers=lines)
    same(ra, rb, "results with and without trailers", trailers=lines)
    rec.label(c["who"])
    rec.nt(len(a.notes) >= 3)


CHECKS = [Check("inserted", cases, check, n=14000, note="metamorphic: leaving out lines with unknown names"),
          Check("faulty", lambda: cases(pool.messages()), check, n=4000, note="messages like those of the other properties' checks"),
          Check("trailers", trailing, check_trailing, n=5000, note="metamorphic: leaving out the trailers, whatever is in them")]
