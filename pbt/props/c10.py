"""C10: syntax findings agree with the field's published grammar."""
import re

from hypothesis import strategies as st

from pbt import abnf, gen, lib, rfc, spec
from pbt.core import Check, Skip, require
from pbt.props.c08 import members

RULE = "a case is one field and a value made from its published grammar, then edited; non-trivial when the value differs from the plain samples (either not derivable, or longer than ten characters)"
ASSUMPTIONS = ["comments nest at most eight deep (four in From), as regular expressions need some bound",
               "where a specification's sender and recipient grammars differ, what only the recipient grammar allows isn't judged"]
S = st.sampled_from
NAMES = sorted(rfc.FIELDS)
HARD = ["Accept", "Accept-Language", "Authorization", "Content-Language", "Content-Location", "Content-Type", "ETag", "From", "Host", "If-Range", "Link",
        "Location", "Retry-After", "Server", "User-Agent", "Via", "Warning", "WWW-Authenticate", "X-Frame-Options", "Strict-Transport-Security",
        "Content-Security-Policy", "Alt-Svc", "TE", "Expect", "Referer"]
LISTS = {n for n in NAMES if spec.FIELDS[n][1] == "list" and n != "Server"}


def values(name):
    return rfc.grammar().strategy(rfc.FIELDS[name][0])


@st.composite
def cases(draw, names, wild):
    name = draw(S(names))
    base = values(name)
    text = draw(abnf.mutated(base)) if wild else draw(base)
    if wild and name in LISTS and draw(st.integers(0, 3)) == 0:
        text = text + draw(S([",", ", ", " ,", ",,"])) + draw(abnf.mutated(base))
    pad = draw(S(["", "", "", " ", "\t", "  \t"])), draw(S(["", "", " ", "\t"]))
    return {"name": name, "kind": draw(S(spec.kinds_of(name))), "value": text, "pad": pad, "trailer": draw(st.integers(0, 9)) == 0}


@st.composite
def samples(draw):
    name = draw(S(NAMES))
    return {"name": name, "kind": draw(S(spec.kinds_of(name))), "value": draw(gen.field_value(name)).decode("latin-1").strip(" \t"), "pad": ("", ""), "trailer": False}


def deep(text, limit):
    depth = worst = 0
    for c in text:
        depth = max(0, depth + {"(": 1, ")": -1}.get(c, 0))
        worst = max(worst, depth)
    return worst > limit


def verdicts(name, value):
    """For each member of the value: True (derivable), False, or None (not judged); None if the members can't be told."""
    if name in LISTS:
        got = members(value, name) if set(value) & set(',<(') or '"' in value and "," in value else [value]
        if got is None:
            return None
        parts = [p for p in (g.strip(" \t") for g in got) if p]
    else:
        parts = [value.strip(" \t")]
    rule, lenient = rfc.FIELDS[name]
    g = rfc.grammar()
    out = []
    for p in parts:
        if g.matches(rule, p):
            out.append(True)
        elif lenient and g.matches(lenient, p):
            out.append(None)
        else:
            out.append(False)
    return out


PLACE = re.compile(r"'(.)' was found at position ([0-9]+):\n\n    (.*)\n    ( *)\^", re.S)


def located(name, value, note, rec):
    """When a finding says where the syntax goes wrong, what is before that place is right."""
    said = PLACE.search(str(note.vars.get("problem", "")))
    if not said or "value" not in note.vars:
        return
    part, char, at, context, pointer = note.vars["value"], said[1], int(said[2]), said[3], len(said[4])
    rec.label("located")
    require(part in value or name.endswith("Authenticate"), "%s: %r: a syntax finding about %r", name, value, part)  # challenges are joined again
    require(1 <= at <= len(part) and part[at - 1] == char, "%s: %r: there is no %r at position %d", name, part, char, at)
    require(context in part and context[pointer:pointer + 1] == char and part.startswith(context, at - 1 - pointer), "%s: %r: position %d isn't where %r is marked in %r", name, part, at, char, context)
    rule, lenient = rfc.FIELDS[name]
    before = part[:at - 1].lstrip(" \t")
    g = rfc.grammar()
    require(not before or any(g.matches(r, b) for r in (rule, lenient) if r for b in (before, before.rstrip(" \t"))), "%s: %r: what is before position %d doesn't follow the syntax", name, part, at)


def check(case, rec):
    name, value = case["name"], case["pad"][0] + case["value"] + case["pad"][1]
    if len(value) > 400 or deep(value, 4 if name == "From" else 8):
        raise Skip("too long or deep")
    want = verdicts(name, value)
    if want is None:
        raise Skip("members unclear")
    fields = [(name.encode(), value.encode("latin-1"))]
    m = lib.msg(case["kind"], [] if case["trailer"] else fields)
    if case["trailer"]:
        m["trailers"] = fields
    linter = lib.lint(m)
    found = [n for n in linter.notes if type(n).__name__ in ("BAD_SYNTAX", "BAD_SYNTAX_DETAILED")]
    lo, hi = want.count(False), want.count(False) + want.count(None)
    require(lo <= len(found) <= hi, "%s: %r: %d syntax findings, where %d of %d members don't follow the grammar", name, value, len(found), lo, len(want))
    key = name.lower()
    for n in found:
        require(n.subject in ("offset-0", f"field-{key}"), "%s: a syntax finding about %s", name, n.subject)
        located(name, value, n, rec)
    rec.nt(False in want or len(value) > 10)
    rec.label(name, "valid" if False not in want else "invalid")


def edges(tier):
    out = []
    for name in NAMES:
        for i, text in enumerate(rfc.grammar().edges(rfc.FIELDS[name][0])):
            if len(text) <= 400 and text.strip(" \t"):
                kinds = spec.kinds_of(name)
                out.append({"name": name, "kind": kinds[i % len(kinds)], "value": text, "pad": ("", ""), "trailer": False})
    return out


@st.composite
def own_cases(draw):
    name = draw(S(sorted(rfc.OWN)))
    text = draw(abnf.mutated(rfc.grammar().strategy(rfc.OWN[name][0])))
    return {"name": name, "kind": draw(S(spec.kinds_of(name))), "value": text}


def own_edges(tier):
    return [{"name": name, "kind": spec.kinds_of(name)[0], "value": text} for name, (rule, _) in sorted(rfc.OWN.items()) for text in rfc.grammar().edges(rule)
            if len(text) <= 400 and text.strip(" \t")]


def check_own(case, rec):
    """Fields that have findings of their own for a value that doesn't follow their grammar."""
    name, value = case["name"], case["value"].strip(" \t")
    rule, words = rfc.OWN[name]
    if not value or len(value) > 400 or name == "Content-Length" and "," in value:  # repeated lengths are a case of their own
        raise Skip("nothing, or too long")
    ok = rfc.grammar().matches(rule, value)
    lenient = rfc.OWN_LENIENT.get(name)
    if not ok and lenient and rfc.grammar().matches(lenient, value):
        raise Skip("tolerated")
    linter = lib.lint(lib.msg(case["kind"], [(name.encode(), value.encode("latin-1"))]))
    found = sorted({type(n).__name__ for n in linter.notes} & set(words))
    require(bool(found) != ok, "%s: %r: %s, though it %s the grammar", name, value, found or "not reported", "follows" if ok else "doesn't follow")
    rec.nt(not ok or len(value) > 10)
    rec.label(name, "valid" if ok else "invalid")


CHECKS = [
    Check("derived", lambda: cases(NAMES + HARD, False), check, n=6000, note="values derived from each field's published grammar"),
    Check("edited", lambda: cases(NAMES + HARD + HARD, True), check, n=12000, note="derived values with a few characters inserted, deleted, replaced, repeated or cut, alone and in lists"),
    Check("edges", None, check, enum=edges, note="for every choice in each field's grammar, values at its edges and just beyond them"),
    Check("own words", own_cases, check_own, n=2500, note="the same for numbers, ranges and origins, whose faults have findings of their own"),
    Check("own edges", None, check_own, enum=own_edges, note="their grammars' edges"),
    Check("samples", samples, check, n=4000, note="the values the other checks use for these fields, judged by the grammar"),
]
