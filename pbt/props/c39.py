"""C39: findings are filed under their kind's category and level, and compare by what they say."""
import pickle
import re

from hypothesis import strategies as st

from pbt import gen, kinds, lib, pool, scenarios, spec
from pbt.core import Check, require, same

RULE = "a case is a message, and the same message with one line changed; non-trivial when there is a finding that is filed under its field's topic, or two findings of one kind with different details"
ASSUMPTIONS = ["the category and level of each kind, and the topic of each field, are the published ones, written down in pbt/kinds.py",
               "the kinds that can be about any field are BAD_SYNTAX, BAD_SYNTAX_DETAILED, BAD_JSON, STRUCTURED_FIELD_PARSE_ERROR, FIELD_DEPRECATED, the two about misdirected fields, and (in Date, Expires, Last-Modified and Sunset) BAD_DATE_SYNTAX and DATE_OBSOLETE; "
               "other general kinds stay general", "subnotes aren't part of what makes two findings equal"]
S = st.sampled_from
ANY_FIELD = {"BAD_SYNTAX", "BAD_SYNTAX_DETAILED", "BAD_JSON", "STRUCTURED_FIELD_PARSE_ERROR", "FIELD_DEPRECATED", "REQUEST_HDR_IN_RESPONSE", "RESPONSE_HDR_IN_REQUEST"}
DATES = {"BAD_DATE_SYNTAX", "DATE_OBSOLETE"}
DATED = {"date", "expires", "last-modified", "sunset"}


PLAIN = {str, int, bool, bytes, float}


def filed(note):
    """The (category, level) a finding should have."""
    name = type(note).__name__
    category, level = kinds.KINDS[name]
    field = spec.canonical(str(note.vars.get("field_name", ""))).lower()
    if category == "GENERAL" and (name in ANY_FIELD or (name in DATES and field in DATED)):
        category = kinds.TOPIC.get(field, "GENERAL")
    return category, level


def equal(a, b):
    """Whether two findings say the same; None when that can't be told from a plain rendering."""
    if type(a) is not type(b) or a.subject != b.subject:
        return False
    x, y = lib.plain(dict(sorted(a.vars.items()))), lib.plain(dict(sorted(b.vars.items())))
    if x == y:
        # things like RelativeTime may read the same and not be
        return True if repr(sorted(a.vars.items())) == repr(sorted(b.vars.items())) else None
    if {k: str(v) for k, v in a.vars.items()} != {k: str(v) for k, v in b.vars.items()}:
        return False
    # a number isn't the text of it
    return False if any(type(v) in PLAIN and type(b.vars[k]) in PLAIN and (type(v) is str) != (type(b.vars[k]) is str) for k, v in a.vars.items()) else None


@st.composite
def cases(draw, source=None):
    m = draw(source if source is not None else st.one_of(gen.message(related=True), scenarios.caching(), scenarios.cors(), scenarios.status(), scenarios.security(), scenarios.conditional()))
    hs = list(m["headers"])
    if draw(st.integers(0, 4)) == 0 and m["kind"] == "response":
        name, text = draw(S([("Cache-Status", "a; fwd={}"), ("Cache-Status", "a; hit={}"), ("Proxy-Status", "a; error={}"), ("Proxy-Status", "a; received-status={}"), ("Cross-Origin-Opener-Policy", "{}"), ("Cross-Origin-Embedder-Policy", "{}"), ("NEL", '{{"max_age":{}}}')]))
        hs.insert(0, (name.encode(), text.format(draw(S(["1", '"1"', "?1", '"True"', "-5", '"-5"']))).encode()))
        return dict(m, headers=hs), dict(m, headers=[(hs[0][0], text.format(draw(S(["1", '"1"', "?1", '"True"', "-5", '"-5"']))).encode())] + hs[1:])
    for _ in range(draw(st.integers(0, 3))):
        name = draw(S(list(spec.FIELDS) + spec.DEPRECATED))
        hs.insert(draw(st.integers(0, len(hs))), (name.encode(), draw(st.one_of(gen.field_value(name), S([b"\x01", b'"', b"(", b"1 2 3", b"Sun, 06 Nov 1994", b"Sunday, 06-Nov-94 08:49:37 GMT", b"?"])))))
    other = list(hs)
    if other:
        at = draw(st.integers(0, len(other) - 1))
        name = other[at][0]
        if draw(st.integers(0, 3)) == 0:
            # the same text as another type
            how = draw(S([(rb"(^|=)(-?[0-9]+)\b", rb'\1"\2"'), (rb'"(-?[0-9]+)"', rb"\1"), (rb"\?1", b"True"), (rb":([A-Za-z0-9=]*):", rb'"\1"')]))
            other[at] = (name, re.sub(*how, other[at][1]))
            return dict(m, headers=hs), dict(m, headers=other)
        other[at] = (name, draw(st.one_of(gen.field_value(spec.canonical(spec.wire(name))), S([b"", b"\x01", b"x", b"0"]))))
    return dict(m, headers=hs), dict(m, headers=other)


def check(case, rec):
    m, other = case
    a, b = lib.lint(m), lib.lint(other)
    topical = False
    for linter in (a, b):
        for n in lib.all_notes(linter.notes):
            name = type(n).__name__
            if name not in kinds.KINDS:
                continue
            want = filed(n)
            same((n.category.name, n.level.name), want, f"the category and level of {name}, for {n.vars.get('field_name')}")
            topical = topical or want != kinds.KINDS[name]
    again = lib.lint(m)
    require(a.notes == again.notes and not a.notes != again.notes, "findings of the same message linted twice aren't equal")
    copies = pickle.loads(pickle.dumps(list(a.notes)))
    require(copies == list(a.notes), "findings aren't equal to their pickled copies")
    differing = False
    flat = list(lib.all_notes(a.notes))[:40]
    for x in flat:
        require(x == x and not x != x, "%s isn't equal to itself", type(x).__name__)
        require(x != type(x).__name__ and x != None and not x == 0, "%s is equal to something that isn't a finding", type(x).__name__)  # pylint: disable=singleton-comparison
        for y in list(lib.all_notes(b.notes))[:40]:
            want = equal(x, y)
            if want is None:
                continue
            differing = differing or (type(x) is type(y) and not want)
            require((x == y) is want and (y == x) is want and (x != y) is not want, "%s about %r %r, and %s about %r %r: equal is %s", type(x).__name__, x.subject, x.vars, type(y).__name__, y.subject, y.vars, x == y)
    rec.nt(topical or differing)
    rec.label("field's topic" if topical else "kind's own", "differing" if differing else "same")


CHECKS = [
    Check("findings", cases, check, n=3000, note="the category and level of each finding against the published ones; equality of findings against what they say"),
    Check("faulty", lambda: cases(pool.messages()), check, n=2000, note="messages like those of the other properties' checks"),
]
