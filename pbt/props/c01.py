"""C01: linting any message completes and every note it produces renders."""
from hypothesis import strategies as st

from pbt import gen, lib, pool, scenarios
from pbt.core import Check, require
from httplint.note import categories, levels
from httplint.note import Note
from markupsafe import Markup

RULE = ("a case is one message (with an optional related message); it is non-trivial when linting it "
        "produced at least one note beyond those an empty message gets")
ASSUMPTIONS = [
    "the public API is called in the documented order with arguments of the documented types",
    "field values are at most a few tens of KB and nesting at most ~1200 levels",
]
BASE = {"request": {"MISSING_USER_AGENT", "URI_BAD_SYNTAX"},
        "response": {"DATE_CLOCKLESS", "STORE_STORABLE", "FRESHNESS_HEURISTIC", "STALE_SERVABLE", "STATUS_NONSTANDARD", "FRESHNESS_NONE", "STORE_UNSTORABLE"}}


def check_notes(linter, rec):
    for note in lib.all_notes(linter.notes):
        cls = type(note).__name__
        require(isinstance(note, Note), "%r is not a Note", note)
        require(isinstance(note.category, categories), "%s has category %r", cls, getattr(note, "category", None))
        require(isinstance(note.level, levels), "%s has level %r", cls, getattr(note, "level", None))
        require(isinstance(note.subject, str), "%s has subject %r", cls, note.subject)
        summary = note.summary
        detail = note.detail
        require(isinstance(summary, str) and summary, "%s has summary %r", cls, summary)
        require(isinstance(detail, Markup), "%s has detail %r", cls, detail)
        require(str(note) == summary, "str(%s) is not its summary", cls)
        rec.label(cls)


def lint(case, rec):
    linter = lib.lint(case)
    check_notes(linter, rec)
    rec.nt(bool(set(lib.names(linter)) - BASE[case["kind"]]))
    other = lib.related(linter)
    if other is not None:
        check_notes(other, rec)


@st.composite
def one_field(draw):
    name = draw(st.sampled_from(gen.ALL_FIELDS + gen.OTHER_NAMES))
    ent = gen.CORPUS.get(name, {"req": True, "resp": True})
    kinds = [k for k, ok in (("request", ent["req"]), ("response", ent["resp"])) if ok] * 6 + ["request", "response"]
    kind = draw(st.sampled_from(kinds))
    values = draw(st.lists(gen.field_value(name), min_size=1, max_size=3))
    m = lib.msg(kind, [(name.encode(), v) for v in values], base="http://example.com/foo/")
    if draw(st.integers(0, 5)) == 0:
        m["trailers"], m["headers"] = m["headers"], []
    return m


@st.composite
def deep(draw):
    """Deeply nested or very repetitive values."""
    n = draw(st.sampled_from([50, 200, 1000, 1200]))
    name = draw(st.sampled_from(gen.ALL_FIELDS + ["NEL", "Report-To"] * 3))
    if draw(st.booleans()):
        # a plausible value with a piece of it repeated and spoiled at the end
        value = draw(gen.field_value(name)).decode("latin-1")[:80]
        i = draw(st.integers(0, len(value)))
        j = draw(st.integers(i, min(len(value), i + 12)))
        value = value[:i] + value[i:j] * draw(st.sampled_from([30, 60, 300])) + draw(st.sampled_from(["\x01", '"', "(", "", "\x80"])) + value[j:]
        return lib.msg("response" if gen.CORPUS[name]["resp"] else "request", [(name.encode(), gen.latin(value))])
    unit = draw(st.sampled_from(["[", '{"a":', "(", '"', "\\", "(a ", ";a", ",", "a,", "a=", "=", "<", "W/", "'", "%", ":", "a=1;", "*", " ", "1", "-", "\t", "((", "[{\"endpoints\":", "\u00e9"]))
    if name in ("NEL", "Report-To") and draw(st.booleans()):
        n = draw(st.sampled_from([20000, 50000]))
        unit = draw(st.sampled_from(["[", '{"a":', '[{"endpoints":']))
    tail = draw(st.sampled_from(["", "]" * n, "}" * n, "x", '"', ")" * n]))
    ent = gen.CORPUS[name]
    kind = "response" if ent["resp"] else "request"
    return lib.msg(kind, [(name.encode(), gen.latin(unit * n + tail))])


CHECKS = [
    Check("fields", one_field, lint, n=24000, note="every supported field, 1-3 lines of plausible to hostile values"),
    Check("messages", gen.message, lint, n=8000, note="whole messages with bodies, trailers, options and related messages"),
    Check("scenarios", scenarios.scenario, lint, n=12000, note="cross-field, cross-message, time, body and raw-API scenarios"),
    Check("faulty", pool.messages, lint, n=4000, note="messages like those of the other properties' checks"),
    Check("deep", deep, lint, n=2000, note="long repetitive and deeply nested values"),
]


def extra_evidence(per_check):
    seen = set()
    for c in per_check.values():
        seen |= set(c["labels"])
    return {"note_classes_seen_in_top_labels": len(seen)}
