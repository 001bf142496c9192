"""C09: singleton fields use the first line and report repetition."""
import collections

from hypothesis import strategies as st

from pbt import gen, lib, scenarios, spec
from pbt.core import Check, require, same

RULE = "a case is a single-valued field with one or more lines among other fields; non-trivial when it is repeated"
ASSUMPTIONS = []
S = st.sampled_from
SINGLES = spec.shape("single")
# reported for each line as it is received, whatever the field
PER_LINE = {"FIELD_VALUE_ENCODING", "FIELD_DEPRECATED", "FIELD_TOO_LARGE"}


@st.composite
def cases(draw):
    name = draw(S(SINGLES))
    kind = draw(S(spec.kinds_of(name)))
    how = draw(st.integers(0, 4))
    vals = draw(st.lists(gen.field_value(name), min_size=1, max_size=4))
    if how == 0:
        vals = [vals[0]] * draw(st.integers(1, 4))
    if how == 1:
        vals = [draw(S([b"", b" ", b"x", b",", b"\x00", b"-"]))] + vals
    others = [f for f in draw(gen.headers(kind, 4)) if f[0].lower() != name.lower().encode()]
    lines = [(draw(S([name, name.lower(), name.upper(), name.swapcase()])).encode(), v) for v in vals]
    spots = sorted(draw(st.lists(st.integers(0, len(others)), min_size=len(lines), max_size=len(lines))))
    hs, rest = [], list(others)
    merged = []
    for i in range(len(others) + 1):
        merged += [lines[j] for j, s in enumerate(spots) if s == i]
        if i < len(others):
            merged.append(others[i])
    del hs, rest
    return {"name": name, "kind": kind, "fields": merged, "trailer": draw(st.integers(0, 5)) == 0, "start": draw(S([None, 1309770486.0])), "chunks": draw(S([[], [b"hello"]])),
            "status": draw(S([b"200", b"200", b"206", b"301", b"304", b"416", b"404"]))}


def lint(case, fields):
    top = (b"HTTP/1.1", case["status"], b"x") if case["kind"] == "response" else "default"
    m = lib.msg(case["kind"], [] if case["trailer"] else fields, top=top, base="https://example.com/foo/", start=case["start"], chunks=case["chunks"])
    if case["trailer"]:
        m["trailers"] = fields
    return lib.lint(m)


def check(case, rec):
    key = case["name"].lower().encode()
    mine = [i for i, (n, _) in enumerate(case["fields"]) if n.lower() == key]
    drop = set(mine[1:])
    kept = [i for i in range(len(case["fields"])) if i not in drop]
    back = {new: old for new, old in enumerate(kept)}
    full, first = lint(case, case["fields"]), lint(case, [case["fields"][i] for i in kept])

    def keys(linter, remap):
        out = collections.Counter()
        for n in linter.notes:
            cls, subject = type(n).__name__, n.subject
            if subject.startswith("offset-"):
                i = int(subject[7:])
                i = back[i] if remap else i
                if i in drop and cls in PER_LINE:
                    continue
                subject = f"line {i}"
            elif cls == "FIELD_SECTION_TOO_LARGE":
                continue
            out[(subject, repr(lib.note_key(n, subject=False)))] += 1
        return out

    repeats = [n for n in full.notes if type(n).__name__ == "SINGLE_HEADER_REPEAT" and n.vars.get("field_name") == case["name"]]
    same(len(repeats), int(len(mine) > 1), f"repetition reports for {len(mine)} lines of {case['name']}")
    none = [n for n in first.notes if type(n).__name__ == "SINGLE_HEADER_REPEAT" and n.vars.get("field_name") == case["name"]]
    require(not none, "%s on one line is reported as repeated", case["name"])
    for n in repeats:
        same(n.subject, "field-" + case["name"].lower(), "subject of the repetition report")
    ka, kb = keys(full, False), keys(first, True)
    for n in repeats:
        ka[(n.subject, repr(lib.note_key(n, subject=False)))] -= 1
    ka = +ka
    if ka != kb:
        require(False, "with later lines of %s the findings change: lost %r, gained %r", case["name"], list((kb - ka).elements())[:2], list((ka - kb).elements())[:2])
    same(lib.parsed(full), lib.parsed(first), f"parsed values with and without later lines of {case['name']}")
    ra, rb = lib.results(full), lib.results(first)
    for k in ra:
        if k != "text":
            same(ra[k], rb[k], f"{k} with and without later lines of {case['name']}")
    rec.nt(len(mine) > 1)
    rec.label(case["name"])


CHECKS = [Check("repeats", cases, check, n=12000, note="the message with and without the later lines of one single-valued field")]
