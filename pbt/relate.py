"""Comparing the findings for a message with those for the message with lines left out."""
from __future__ import annotations

import collections

from pbt import lib, spec
from pbt.core import require, same

PER_LINE = {"FIELD_NAME_ENCODING", "FIELD_VALUE_ENCODING", "FIELD_TOO_LARGE", "REQUEST_HDR_IN_RESPONSE", "RESPONSE_HDR_IN_REQUEST", "FIELD_NAME_BAD_SYNTAX"}


def lines(m, section):
    return m["headers"] if section == 0 else (m.get("trailers") or [])


def canon(name):
    return spec.canonical(spec.wire(name)).lower()


def locate(note, m):
    """The lines [(section, i)] a note with an offset subject may be about."""
    i = int(note.subject[7:])
    out = []
    for sec in (0, 1):
        ls = lines(m, sec)
        if i < len(ls) and note.vars.get("field_name") is not None and str(note.vars["field_name"]).lower() in (canon(ls[i][0]), spec.wire(ls[i][0]).lower()):
            out.append((sec, i))
    return out


def drop(m, keep):
    """m with only the lines keep(name) holds for, and the map from old to new positions."""
    maps, m2 = {}, dict(m)
    for sec, key in ((0, "headers"), (1, "trailers")):
        ls = lines(m, sec)
        kept = [i for i, (n, _) in enumerate(ls) if keep(n)]
        for j, i in enumerate(kept):
            maps[(sec, i)] = (sec, j)
        if sec == 0 or m.get("trailers") is not None:
            m2[key] = [ls[i] for i in kept]
    return m2, maps


def _key(note, where):
    return repr((type(note).__name__, where, note.level.name, note.category.name,
                 sorted((k, lib.plain(v)) for k, v in note.vars.items()),
                 [_key(s, s.subject) for s in note.subnotes]))


def note_bag(linter, m, maps=None, gone=None):
    """Multiset of notes with lines named by position (as in the reduced message)."""
    out = collections.Counter()
    both = {canon(n) for n, _ in lines(m, 0)} & {canon(n) for n, _ in lines(m, 1)}
    for n in linter.notes:
        where = n.subject
        if where.startswith("offset-"):
            at = locate(n, m)
            require(at, "%s is about %s, which is not the position of a %r line in %r", type(n).__name__, where, n.vars.get("field_name"), [k for k, _ in m["headers"]])
            if maps is not None:
                stay = [maps[a] for a in at if a in maps]
                if not stay:
                    if gone is not None:
                        gone.append((at[0], n))
                    continue
                at = stay
            # an offset doesn't say which section, so lines of a name in both aren't told apart
            where = "line" if str(n.vars["field_name"]).lower() in both else at[0][1]
        out[_key(n, where)] += 1
    return out


def unaffected(m, keep, what):
    """Linting m and m without the lines keep() rejects must agree, those lines' own notes aside.
    Returns (linter for m, linter for the reduced message, [(line, note)] about dropped lines)."""
    m2, maps = drop(m, keep)
    a, b = lib.lint(m), lib.lint(m2)
    gone = []
    ka, kb = note_bag(a, m, maps, gone), note_bag(b, m2)
    if ka != kb:
        require(False, "%s changed the findings: without them %r; only with them %r", what, sorted((kb - ka).elements())[:3], sorted((ka - kb).elements())[:3])
    ra, rb = lib.results(a), lib.results(b)
    for k in ra:
        if k not in ("parsed", "text"):
            same(ra[k], rb[k], f"{k}, compared with {what} left out")
    for sa, sb, sec in ((a.headers, b.headers, 0), (a.trailers, b.trailers, 1)):
        da = {k: repr(lib.plain(v)) for k, v in sa.parsed.items()}
        db = {k: repr(lib.plain(v)) for k, v in sb.parsed.items()}
        left = {spec.wire(n).lower() for n, _ in lines(m2, sec)}
        same({k: v for k, v in da.items() if k in left}, db, f"parsed values, compared with {what} left out")
    return a, b, gone
