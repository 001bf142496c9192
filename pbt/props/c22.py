"""C22: pickling a finished linter."""
import pickle

from hypothesis import strategies as st

from pbt import gen, lib, pool, scenarios
from pbt.core import Check, require, same

from httplint.i18n import set_locale

RULE = "a case is a message; non-trivial when it has at least three findings and a parsed field"
ASSUMPTIONS = ["only finished linters are pickled"]
S = st.sampled_from


@st.composite
def cases(draw, source=None):
    m = draw(source if source is not None else st.one_of(gen.message(), gen.message(), scenarios.caching(), scenarios.cors(), scenarios.security(), scenarios.conditional(), scenarios.status(), scenarios.charset(), scenarios.raw()))
    return {"m": m, "protocol": draw(st.integers(0, pickle.HIGHEST_PROTOCOL)), "rendered": draw(st.booleans()), "locale": draw(S(["en", "fr", "ja", "es", "zh"]))}


def snapshot(l):
    return (lib.note_keys(l), lib.render(l), lib.results(l), (l.version, l.base_uri, l.start_time, l.no_content, l.complete, l.transfer_length, l.decoded.decode_ok, l.headers.size, l.trailers.size),
            sorted((k, h.canonical_name, repr(lib.plain(h.value))) for k, h in list(l.headers.handlers.items()) + [("t:" + k, h) for k, h in l.trailers.handlers.items()]))


def check(case, rec):
    l = lib.lint(case["m"])
    if case["rendered"]:
        lib.render(l)
    try:
        data = pickle.dumps(l, case["protocol"])
    except Exception as why:
        require(False, "a finished linter can't be pickled: %s: %s", type(why).__name__, why)
    try:
        back = pickle.loads(data)
    except Exception as why:
        require(False, "a pickled linter can't be read back: %s: %s", type(why).__name__, why)
    want = snapshot(l)
    got = snapshot(back)
    for what, a, b in zip(("notes", "rendered text", "results", "attributes", "handlers"), got, want):
        same(a, b, f"{what} of the unpickled linter")
    rel, brel = lib.related(l), lib.related(back)
    same(brel is None, rel is None, "whether the unpickled linter has a related message")
    if rel is not None:
        for what, a, b in zip(("notes", "rendered text", "results", "attributes", "handlers"), snapshot(brel), snapshot(rel)):
            same(a, b, f"{what} of the unpickled related message")
        require(lib.related(brel) is back, "the unpickled related message does not refer back")
    again = pickle.loads(pickle.dumps(back))
    same(snapshot(again)[0], want[0], "notes after a second round trip")
    for n, o in zip(lib.all_notes(back.notes), lib.all_notes(l.notes)):
        same((n.subject, n.level, n.category, n.__class__), (o.subject, o.level, o.category, o.__class__), "an unpickled note")
    with set_locale(case.get("locale", "fr")):
        same(lib.render(back), lib.render(l), "text of the unpickled notes in another language")
    rec.nt(len(l.notes) >= 3 and bool(l.headers.parsed))
    rec.label("related" if rel is not None else "alone")


def every_field(tier):
    """Every field alone, with each of its example values."""
    out = []
    for name, ent in sorted(gen.CORPUS.items()):
        for kind in ("request", "response"):
            for v in sorted({l for ls in ent["inputs"] for l in ls}):
                out.append({"m": lib.msg(kind, [(name.encode(), gen.latin(v))]), "protocol": 2, "rendered": False})
    return out


@st.composite
def deep(draw):
    """Values nested to any depth that is kept: what is kept can be pickled."""
    opening, closing = draw(S([("[", "]"), ('{"a":', "}"), ('[{"a":', "}]"), ('{"a": 1, "b": [', "]}"), ('[1, {"x": 2, "a": ', ', "z": null}]')]))
    n = draw(st.one_of(st.integers(20, 120), st.integers(100, 400), st.integers(200, 1500), st.integers(1000, 10000)))
    line = opening * n + draw(S(["1", "{}", "[]", '"a"', "null"])) + closing * n
    return {"m": lib.resp([(draw(S([b"NEL", b"Report-To"])), draw(S([b"", b"{}, "])) + line.encode())]), "protocol": draw(st.integers(0, pickle.HIGHEST_PROTOCOL)), "rendered": draw(st.booleans()), "locale": "fr"}


def check_deep(case, rec):
    check(case, rec)
    rec.nt(len(case["m"]["headers"][0][1]) > 100)
    rec.label(case["m"]["headers"][0][0].decode())


CHECKS = [
    Check("examples", None, check, enum=every_field, note="each field alone with each example value"),
    Check("round trip", cases, check, n=5000, note="round trip through pickle"),
    Check("deep", deep, check_deep, n=200, note="JSON nested tens to thousands of levels"),
    Check("faulty", lambda: cases(pool.messages()), check, n=2500, note="messages like those of the other properties' checks"),
]
