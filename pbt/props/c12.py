"""C12: Structured Fields parse to what was serialised, and failures stay contained."""
import collections
import re

from hypothesis import strategies as st

from pbt import abnf, gen, lib, rfc, sf, spec
from pbt.core import Check, Skip, require, same

RULE = "a case is one structured field and a serialised value, possibly over several lines or edited; non-trivial when it has parameters, an inner list, several members or an edit"
ASSUMPTIONS = ["whether parsers insist on a byte sequence's padding is left to them by RFC 9651 and isn't judged",
               "dates the platform can't represent aren't judged"]
S = st.sampled_from
KIND = {n: k[3:] for n in spec.FIELDS for k in [spec.FIELDS[n][1]] if k.startswith("sf-")}
NAMES = sorted(KIND)
COMMON = {"FIELD_VALUE_ENCODING", "FIELD_TOO_LARGE", "FIELD_SECTION_TOO_LARGE", "FIELD_DEPRECATED"}
OTHERS = [(b"Server", b"a/1"), (b"X-Foo", b"bar"), (b"Etag", b"bad"), (b"Content-Type", b"text/html;a=1;a=2")]


@st.composite
def cases(draw, edit):
    name = draw(S(NAMES))
    kind = KIND[name]
    if kind == "item":
        data, text = draw(sf.items())
        texts = [text]
    elif kind == "list":
        data, texts = draw(sf.lists())
    else:
        data, texts = draw(sf.dictionaries())
    lines = []
    for t in texts:
        if lines and not draw(st.booleans()):
            lines[-1] += draw(S([", ", ",", " ,\t", "\t, "])) + t
        else:
            lines.append(t)
    lines = [draw(S(["", "", " "])) + l + draw(S(["", "", " "])) for l in lines]
    if edit:
        i = draw(st.integers(0, len(lines) - 1))
        if draw(st.integers(0, 5)) == 0:
            lines[i] = draw(gen.field_value(name)).decode("latin-1")
        elif draw(st.integers(0, 9)) == 0:
            lines.insert(i, draw(S(["", " ", ",", ";", "=", "()", "(", "a b", "A=1", "1.", "1.1234", "1" * 16, '"', '"a', ":a:", ":=:", "?2", "@1.5", '%"%FF"', '%"%ff"', "1;A", "a=", "\xe9", "a;;b"])))
        else:
            lines[i] = draw(abnf.mutated(st.just(lines[i])))
    return {"name": name, "kind": draw(S(spec.kinds_of(name))), "lines": lines, "trailer": draw(st.integers(0, 9)) == 0, "others": draw(st.booleans()), "data": repr(data)}


GRAMMAR = abnf.Grammar(rfc.CORE + r'''
OWS = *( SP / HTAB )
list = sf-list-member *( OWS "," OWS sf-list-member )
dictionary = member *( OWS "," OWS member )
item = bare params
sf-list-member = item / inner
inner = "(" *SP [ item *( 1*SP item ) *SP ] ")" params
member = key ( params / ( "=" sf-list-member ) )
params = *( ";" *SP param )
param = key [ "=" bare ]
key = ( %x61-7A / "*" ) *( %x61-7A / DIGIT / "_" / "-" / "." / "*" )
bare = integer / decimal / string / token / binary / boolean / date / display
integer = ["-"] 1*15DIGIT
decimal = ["-"] 1*12DIGIT "." 1*3DIGIT
string = DQUOTE *( %x20-21 / %x23-5B / %x5D-7E / "\" ( DQUOTE / "\" ) ) DQUOTE
token = ( ALPHA / "*" ) *( ":" / "/" / ALPHA / DIGIT / "!" / "#" / "$" / "%" / "&" / "'" / "*" / "+" / "-" / "." / "^" / "_" / "`" / "|" / "~" )
binary = ":" *( 4b64 ) [ 2b64 "==" / 3b64 "=" ] ":"
b64 = ALPHA / DIGIT / "+" / "/"
boolean = "?" ( "0" / "1" )
date = "@" ["-"] 1*15DIGIT
display = "%" DQUOTE *( %x20-21 / %x23-24 / %x26-5B / %x5D-7E / pct ) DQUOTE
pct = "%" %x32-37 ( DIGIT / %x61-66 )
''')


def edges(tier):
    """Every name of a few kinds takes its share of the edges; in thorough, all of them."""
    out = []
    for kind in sorted(set(KIND.values())):
        names = [n for n in NAMES if KIND[n] == kind]
        for i, text in enumerate(GRAMMAR.edges(kind)):
            for k in range(min(3, len(names)) if tier == "quick" else len(names)):
                name = names[(i * 3 + k) % len(names)]
                out.append({"name": name, "kind": spec.kinds_of(name)[0], "lines": [text], "trailer": False, "others": False, "data": ""})
    return out


def notes_of(linter, sub):
    return [n for n in linter.notes if n.subject == sub]


def order(v):
    """Keys in order too."""
    if isinstance(v, dict):
        return [(k, order(x)) for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return [order(x) for x in v]
    return v


def lowered(data):
    """Accept-Query keeps media ranges in lower case."""
    return [((v[0], v[1].lower()) if isinstance(v, tuple) and v[0] in ("tok", "str") else v, p) for v, p in data]


def lint(case, lines):
    fields = [(case["name"].encode(), l.encode("latin-1")) for l in lines]
    others = OTHERS if case["others"] else []
    m = lib.msg(case["kind"], others + ([] if case["trailer"] else fields))
    if case["trailer"]:
        m["trailers"] = fields
    return lib.lint(m)


def too_big(v):
    if isinstance(v, tuple) and len(v) == 2 and v[0] == "date":
        return not -62135596800 < v[1] < 253402300800
    if isinstance(v, dict):
        return any(map(too_big, v.values()))
    return isinstance(v, (list, tuple)) and any(map(too_big, v))


def check(case, rec):
    name, kind = case["name"], KIND[case["name"]]
    text = ", ".join(case["lines"]).strip(" \t")
    try:
        want = sf.parse(text, kind)
    except sf.Unclear:
        raise Skip("byte sequence's padding") from None
    linter = lint(case, case["lines"])
    sec = linter.trailers if case["trailer"] else linter.headers
    got = sec.parsed[name.lower()]
    sub = f"field-{name.lower()}"
    mine = [n for n in notes_of(linter, sub) if not (type(n).__name__ in ("DATE_CLOCKLESS",))]
    names = [type(n).__name__ for n in mine]
    if want is not None and (too_big(want[0]) or "@" in text and max(map(len, re.findall("[0-9]+", text)), default=0) > 11):  # also where a later value replaces it
        raise Skip("date out of range")
    if want is None:
        same(got, None, f"value of {name}: {case['lines']}, which isn't a structured {kind}")
        require(names.count("STRUCTURED_FIELD_PARSE_ERROR") == 1, "%s: %r isn't a structured %s; notes %s", name, case["lines"], kind, names)
        rest = [n for n in names if n not in ("STRUCTURED_FIELD_PARSE_ERROR", "DUPLICATE_KEY")]
        require(not rest, "%s: %r isn't a structured %s, but %s is reported too", name, case["lines"], kind, rest)
        for n in linter.notes:
            if n.subject.startswith("offset-") and name in str(n.vars.get("field_name", "")):
                require(type(n).__name__ in COMMON, "%s: %r isn't a structured %s, but %s is reported too", name, case["lines"], kind, type(n).__name__)
    else:
        data, dups = want
        if name == "Accept-Query":
            data = lowered(data)
        same(order(sf.plain(got)), order(data), f"value of {name}: {case['lines']}")
        require("STRUCTURED_FIELD_PARSE_ERROR" not in names, "%s: %r is a structured %s, but is reported as not one", name, case["lines"], kind)
        told = collections.Counter((n.vars["key"], str(n.vars["context"])) for n in mine if type(n).__name__ == "DUPLICATE_KEY")
        same(told, collections.Counter(dups), f"repeated keys reported for {name}: {case['lines']}")
    if case["others"]:
        base = lint(case, []) if want is None else None
        if base is not None:
            for other in ("field-server", "field-x-foo", "field-etag", "field-content-type", "offset-0", "offset-1", "offset-2", "offset-3"):
                if other == "offset-0" and case["trailer"]:
                    continue
                a = collections.Counter(repr(lib.note_key(n)) for n in notes_of(linter, other) if n.vars.get("field_name") != name)
                b = collections.Counter(repr(lib.note_key(n)) for n in notes_of(base, other))
                same(a, b, f"notes on {other} next to an invalid {name}: {case['lines']}")
    rec.nt(";" in text or "(" in text or "," in text or want is None)
    rec.label(name, "invalid" if want is None else "repeats" if want[1] else "valid")


def check_serialised(case, rec):
    """The value that was serialised comes back, by the generator's account and not the reference parser's."""
    data = eval(case["data"])  # plain literals made by sf
    if too_big(data):
        raise Skip("date out of range")
    linter = lint(case, case["lines"])
    sec = linter.trailers if case["trailer"] else linter.headers
    if case["name"] == "Accept-Query":
        data = lowered(data)
    same(order(sf.plain(sec.parsed[case["name"].lower()])), order(data), f"value of {case['name']}: {case['lines']}")
    rec.nt(len(case["lines"]) > 1 or ";" in case["lines"][0])
    rec.label(case["name"])


CHECKS = [
    Check("serialised", lambda: cases(False), check_serialised, n=4000, note="data serialised and split into lines comes back"),
    Check("valid", lambda: cases(False), check, n=4000, note="serialised values: data, repeated keys and no parse error"),
    Check("edited", lambda: cases(True), check, n=9000, note="edited values, judged by a reference parser: value or contained failure"),
    Check("edges", None, check, enum=edges, note="values at, and just beyond, every choice in the grammar of RFC 9651"),
]
