"""C07: field order across names, name case and padding don't change findings."""
import collections
import re

from hypothesis import strategies as st

from pbt import gen, lib, pool, scenarios
from pbt.core import Check, Skip, require, same

RULE = "a case is a message and a rearrangement of its fields; non-trivial when it has fields of two names, or the spelling or padding changed, and there are findings about fields"
ASSUMPTIONS = ["field names are ASCII; sections stay well under the size limits so padding cannot cross them"]
S = st.sampled_from
PADS = [b"", b"", b" ", b"\t", b"  ", b" \t "]


def recase(name, how):
    if any(b > 127 for b in name):
        return name
    text = name.decode("ascii")
    if how == 0:
        return name
    if how == 1:
        return text.lower().encode()
    if how == 2:
        return text.upper().encode()
    return "".join(c.upper() if (i * 7 + how) % 3 else c.lower() for i, c in enumerate(text)).encode()


@st.composite
def rearranged(draw, fields):
    """[(original index, name, value)] in a new order, keeping the order within each name."""
    n = len(fields)
    perm = draw(st.permutations(range(n))) if n else []
    slots = collections.defaultdict(list)
    for i, (name, _) in enumerate(fields):
        slots[name.lower()].append(i)
    nexts = {k: iter(v) for k, v in slots.items()}
    out = []
    change_case = draw(st.booleans())
    change_pad = draw(st.booleans())
    for p in perm:
        i = next(nexts[fields[p][0].lower()])
        name, value = fields[i]
        if change_case:
            name = recase(name, draw(st.integers(0, 5)))
        if change_pad:
            value = draw(S(PADS)) + value + draw(S(PADS))
        out.append((i, name, value))
    return out


def boring(m):
    return sum(len(n) + len(v) for n, v in m) > 7000


@st.composite
def cases(draw, source=None):
    m = draw(source if source is not None else st.one_of(gen.message(), scenarios.caching(), scenarios.cors(), scenarios.security(), scenarios.conditional(), scenarios.status(), scenarios.charset(), scenarios.raw()))
    if boring(m["headers"]) or boring(m.get("trailers") or ()):
        m = dict(m, headers=[] if boring(m["headers"][:1]) else m["headers"][:1], trailers=[])
    case = {"m": m, "headers": draw(rearranged(m["headers"])), "trailers": draw(rearranged(m.get("trailers") or []))}
    rel = m.get("related")
    if rel:
        case["related"] = draw(rearranged(rel["headers"]))
    return case




# variables that quote a field value or the place of an error in it verbatim
QUOTING = {"problem", "context", "error", "field_size"}
NAMES = {"field_name", "header_name"}


def keys(notes, maps, padded):
    """Multiset of notes, with lines numbered as in the original message."""
    out = collections.Counter()
    for n in notes:
        out[key(n, maps, padded)] += 1
    return out


def key(n, maps, padded):
    subject = n.subject
    if subject.startswith("offset-"):
        i = int(subject[7:])
        # headers and trailers number their lines separately, so either may be meant
        subject = tuple(sorted({m[i] for m in maps if i in m})) if len(maps) > 1 else maps[0].get(i, ("?", i))
    else:
        subject = subject.lower()
    vs = {}
    for k, v in n.vars.items():
        if k in NAMES:
            v = str(v).lower()
        if padded and k in QUOTING:
            v = None
        vs[k] = lib.plain(v)
    return (type(n).__name__, repr(subject), n.level.name, n.category.name, repr(sorted(vs.items())), tuple(sorted(map(repr, (key(s, maps, padded) for s in n.subnotes)))))


def note_offsets(linter):
    return {n.subject for n in linter.notes if n.subject.startswith("offset-")}


def canon(parsed):
    return sorted(((k, repr(lib.plain(v))) for k, v in parsed.items()))


def check(case, rec):
    m = case["m"]
    for n, _ in list(m["headers"]) + list(m.get("trailers") or ()):
        if any(b > 127 for b in n):
            raise Skip("non-ASCII field name")
    m2 = dict(m, headers=[(n, v) for _, n, v in case["headers"]])
    if m.get("trailers"):
        m2["trailers"] = [(n, v) for _, n, v in case["trailers"]]
    if m.get("related"):
        m2["related"] = dict(m["related"], headers=[(n, v) for _, n, v in case["related"]])
    a, b = lib.lint(m), lib.lint(m2)
    both = bool(m.get("trailers"))
    ha = {i: i for i in range(len(m["headers"]))}
    hb = {j: i for j, (i, _, _) in enumerate(case["headers"])}
    padded = any(v != m["headers"][i][1] for i, _, v in case["headers"]) or any(v != m["trailers"][i][1] for i, _, v in case["trailers"])
    if both:
        # an offset doesn't say which section: compare without it
        ka, kb = keys(a.notes, [Any()], padded), keys(b.notes, [Any()], padded)
    else:
        ka, kb = keys(a.notes, [ha], padded), keys(b.notes, [hb], padded)
    if ka != kb:
        lost, new = list((ka - kb).elements()), list((kb - ka).elements())
        raise_diff(lost, new)
    same(canon(b.headers.parsed), canon(a.headers.parsed), "parsed headers after rearranging")
    same(canon(b.trailers.parsed), canon(a.trailers.parsed), "parsed trailers after rearranging")
    ra, rb = lib.results(a), lib.results(b)
    for k in ra:
        if k not in ("parsed", "text"):
            same(rb[k], ra[k], f"{k} after rearranging")
    rel_a, rel_b = lib.related(a), lib.related(b)
    if rel_a is not None:
        same(canon(rel_b.headers.parsed), canon(rel_a.headers.parsed), "parsed headers of the related message")
    changed = [i for i, _, _ in case["headers"]] != list(range(len(m["headers"]))) or m2["headers"] != m["headers"]
    rec.nt(changed and any(n.subject.startswith(("offset", "field")) for n in a.notes))
    rec.label("reordered" if [i for i, _, _ in case["headers"]] != list(range(len(m["headers"]))) else "same order", "padded" if padded else "not padded")


class Any(dict):
    def __contains__(self, key):
        return True

    def __getitem__(self, key):
        return "line"

    def get(self, key, default=None):
        return "line"


def raise_diff(lost, new):
    require(False, "rearranging the fields changed the findings: lost %r; gained %r", lost[:3], new[:3])


CHECKS = [Check("rearranged", cases, check, n=14000, note="metamorphic: permuting fields across names, changing name case and padding values"),
          Check("faulty", lambda: cases(pool.messages()), check, n=4000, note="messages like those of the other properties' checks")]
