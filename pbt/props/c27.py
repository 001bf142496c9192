"""C27: looking a field up by name."""
from hypothesis import strategies as st

from pbt import gen, lib, spec
from pbt.core import Check, require, same
from pbt.props import c33

from httplint.field.description import get_field_description
from httplint.field.finder import HttpFieldFinder

RULE = "a case is a field name; non-trivial when it is a known name, or one edit away from one"
ASSUMPTIONS = ["the known names and the documented aliases are those of the table in pbt/spec.py"]
S = st.sampled_from
KNOWN = list(spec.FIELDS) + list(spec.ALIASES) + spec.MANGLED + spec.DEPRECATED + spec.UNNECESSARY
LOWER = {n.lower() for n in KNOWN}
# values that make most parsers find something
PROBES = [b"", b",", b"<>", b'"', b";;", b"x=y", b"\x00", b"(", b"0", b"-1", b"a b", b"http://[", b"*", b"?1", b"{", b"a;q=2"]


@st.composite
def names(draw):
    pool = draw(S(["known", "known", "edited", "edited", "edited", "other"]))
    if pool == "known":
        name = draw(S(KNOWN))
        flips = draw(st.integers(0, 2**30))
        return "".join(c.swapcase() if flips >> (i % 30) & 1 else c for i, c in enumerate(name))
    if pool == "edited":
        name = draw(S(KNOWN))
        op = draw(st.integers(0, 8))
        i = draw(st.integers(0, len(name)))
        if op == 0:
            name = name[:i] + name[i + 1:]
        elif op == 1:
            name = name[:i] + draw(S("-_x0.A!")) + name[i:]
        elif op == 2:
            name = name.replace("-", "_")
        elif op == 3:
            name = name.replace("-", "")
        elif op == 4:
            name = name.replace("_", "-")
        elif op == 5:
            name = name + draw(S(["-Field", "_field", "-Test", "s", ".py", "-2", "2", " ", "\n", ":"]))
        elif op == 6:
            name = draw(S(["X-", "Sec-", "_", "-", "httplint.field.parsers."])) + name
        elif op == 7:
            name = name[:i] + name[i:i + 1].replace("s", "\u00df").replace("e", "\u00e9") + name[i + 1:]
        else:
            name = name[::-1]
        return name
    return draw(st.one_of(gen.TOKENS, S(c33.NEAR), st.text(max_size=12), S(["", "parsers", "sys", "re", "field", "utils", "from_field", "From_Field", "rfc9110", "HttpListField", "__doc__", "__name__"])))


def descriptions():
    out = {}
    for name in KNOWN:
        out[name.lower()] = get_field_description(name)
    return out


DESC = descriptions()


def check(name, rec):
    low = name.lower()
    desc = get_field_description(name)
    if low in LOWER:
        require(isinstance(desc, str) and desc.strip(), "no description of %r", name)
        same(desc, DESC[low], f"description of {name!r}, compared with the usual spelling")
        canon = spec.target(low)
        if canon:
            same(desc, DESC[canon.lower()], f"description of {name!r}, compared with {canon}")
        cls = HttpFieldFinder.find_handler_class(name)
        require(cls is not None, "no handler for %r", name)
        if canon:
            # findings name the field canonically
            for kind in ("request", "response"):
                for v in PROBES:
                    l = lib.lint(lib.msg(kind, [(name.encode(), v)]))
                    for n in l.notes:
                        if n.subject == "offset-0" and "field_name" in n.vars:
                            same(str(n.vars["field_name"]), canon, f"name of the field in {type(n).__name__} for {name!r}: {v!r}")
        rec.nt()
        rec.label("known")
        return
    same(desc, None, f"description of {name!r}")
    same(HttpFieldFinder.find_handler_class(name), None, f"handler of {name!r}")
    wire = name.encode("latin-1", "replace")
    for kind in ("request", "response"):
        base = lib.note_keys(lib.lint(lib.msg(kind, [])))
        for v in PROBES:
            l = lib.lint(lib.msg(kind, [(wire, v)]))
            extra = [k for k in lib.note_keys(l) if k not in base]
            lost = [k for k in base if k not in lib.note_keys(l)]
            if spec.wire(wire).lower() in LOWER:
                continue
            same([k[0] for k in extra if k[0] not in ("FIELD_NAME_BAD_SYNTAX", "FIELD_NAME_ENCODING")], [], f"findings for {name!r}: {v!r}")
            same(lost, [], f"findings lost with {name!r}: {v!r}")
    near = any(abs(len(k) - len(low)) <= 1 and (k in low or low in k or k.replace("-", "_") == low) for k in LOWER)
    rec.nt(near or "_" in name)
    rec.label("unknown")


def enum_names(tier):
    return KNOWN + [n.upper() for n in KNOWN] + [n.lower() for n in KNOWN] + [n.replace("-", "_") for n in KNOWN if "-" in n] + c33.NEAR


def distinct(case, rec):
    """Different fields have different descriptions (so a lookup can't have found another's)."""
    a, b = case
    if spec.canonical(a).lower() != spec.canonical(b).lower() and not (a in spec.MANGLED + list(spec.ALIASES) and b in spec.MANGLED + list(spec.ALIASES)):
        require(DESC[a.lower()] != DESC[b.lower()], "%s and %s have the same description", a, b)
    rec.nt()


CHECKS = [
    Check("known names", None, check, enum=enum_names, note="every known name and its underscored form"),
    Check("names", names, check, n=5000, note="known names in any case and near misses, probed with values"),
    Check("distinct", None, distinct, enum=lambda tier: [(a, b) for i, a in enumerate(spec.FIELDS) for b in list(spec.FIELDS)[i + 1:]], note="no two fields share a description"),
]
