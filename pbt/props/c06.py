"""C06: Content-Length and unexpected-content verdicts match the bytes delivered."""
import re

from hypothesis import strategies as st

from pbt import gen, lib
from pbt.core import Check, require, same
from pbt.props import c04

RULE = "a case is a message with a body; non-trivial when it has a Content-Length field or content where none is defined"
ASSUMPTIONS = []
S = st.sampled_from
NO_MEANING = {b"GET", b"HEAD", b"DELETE", b"CONNECT", b"TRACE"}


@st.composite
def cases(draw):
    kind = draw(S(["response", "response", "request"]))
    codings = draw(S([[], [], [], ["gzip"], ["br"], ["gzip", "br"]]))
    payload = draw(st.one_of(st.binary(max_size=40), S([b"", b"", b"a", b"hello" * 3000, b"x" * 1024])))
    body = c04.encode(draw, payload, codings)
    if codings and draw(st.integers(0, 3)) == 0:
        body = payload  # not encoded after all
    n = len(body)
    value = st.one_of(st.just(str(n)), st.just(str(n)), st.just("000" + str(n)), st.integers(-3, 3).map(lambda d: str(max(0, n + d))), st.just(str(len(payload))),
                      S(["+%d" % n, "-%d" % n, " %d\t" % n, "%d " % n, "%d.0" % n, "0x%x" % n, "%d_0" % n, "%d, %d" % (n, n), "", "abc", "%de0" % n, "\u00b2", "%d;" % n, "1 0", "9" * 25, str(2 ** 63 - 1), str(2 ** 63), str(2 ** 63 - 2), "0" * 20 + "1", "9" * 999, "%d\x0b" % n, "%d\n" % n, "\x00%d" % n, '"%d"' % n, "\xa0%d" % n]))
    cls = draw(st.lists(value, max_size=2).map(lambda l: [v.encode("latin-1") for v in l]))
    hs = [(draw(S([b"Content-Length", b"content-length", b"CONTENT-LENGTH"])), v) for v in cls]
    if codings:
        hs.append((b"Content-Encoding", ", ".join(codings).encode()))
    hs += draw(S([[], [], [(b"Transfer-Encoding", b"chunked")], [(b"Content-Type", b"text/plain")], [(b"ETag", b'"x"')]]))
    hs = draw(st.permutations(hs))
    # permuting must keep the values' order
    it = iter(cls)
    hs = [(k, next(it)) if k.lower() == b"content-length" else (k, v) for k, v in hs]
    m = {"kind": kind, "headers": hs, "chunks": c04.split(body, c04.pack_cuts(draw(c04.cuts(len(body))))), "complete": draw(S([True, True, False])), "trailers": draw(S([None, None, [(b"Foo", b"x")]]))}
    if kind == "response":
        m["top"] = (b"HTTP/1.1", draw(S([b"200", b"200", b"304", b"304", b"206", b"204", b"404", b"412", b"500", b"3040", b"x304"])), b"x")
        m["head"] = draw(S([False, False, True]))
    else:
        m["top"] = (draw(S([b"GET", b"HEAD", b"POST", b"PUT", b"DELETE", b"OPTIONS", b"CONNECT", b"TRACE", b"PATCH", b"get", b"FOO"])), b"http://example.com/", b"HTTP/1.1")
    return m


def check(m, rec):
    l = lib.lint(m)
    n = sum(map(len, m["chunks"]))
    names = [x for x in lib.names(l)]
    count = names.count
    cls = [v for k, v in m["headers"] if k.lower() == b"content-length"]
    first = cls[0].decode("latin-1").strip(" \t") if cls else None
    valid = first is not None and re.fullmatch("[0-9]+", first) is not None
    forbidden = m["kind"] == "response" and (m["head"] or m["top"][1] == b"304")
    same(l.content_length, n, "content length")
    same(l.complete, m["complete"], "whether the content was complete")
    verdicts = count("CL_CORRECT") + count("CL_INCORRECT")
    desc = f"{m['kind']} {m['top']} with Content-Length {cls} and {n} bytes"
    if forbidden or first is None:
        same(verdicts, 0, f"{desc}: number of length verdicts")
    elif valid:
        same(verdicts, 1, f"{desc}: number of length verdicts")
        same(count("CL_CORRECT"), int(first) == n and 1 or 0, f"{desc}: 'correct' verdicts")
    else:
        same(count("CL_CORRECT"), 0, f"{desc}: 'correct' verdicts")
    for note in l.notes:
        if type(note).__name__ in ("CL_CORRECT", "CL_INCORRECT"):
            same(note.subject, "field-content-length", f"{desc}: the verdict's subject")
    if count("CL_INCORRECT"):
        note = [x for x in l.notes if type(x).__name__ == "CL_INCORRECT"][0]
        require(str(n) in str(note.detail).replace(",", ""), "%s: the verdict does not give the actual size: %r", desc, str(note.detail))
    same(count("CL_BAD_SYNTAX"), int(first is not None and not valid), f"{desc}: syntax reports")
    same(count("CL_TOO_LARGE"), int(valid and int(first) > 2**63 - 1), f"{desc}: size reports")
    same(sum(type(x).__name__ == "SINGLE_HEADER_REPEAT" for x in l.notes), int(len(cls) > 1), f"{desc}: repetition reports")
    same(l.headers.parsed.get("content-length"), int(first) if valid else None, f"{desc}: parsed value")
    same(count("CONTENT_NOT_ALLOWED"), int(forbidden and n > 0), f"{desc}: 'not allowed' reports")
    same(count("REQUEST_CONTENT_NOT_DEFINED"), int(m["kind"] == "request" and m["top"][0] in NO_MEANING and n > 0), f"{desc}: 'no meaning' reports")
    rec.nt(bool(cls) or forbidden or (m["kind"] == "request" and m["top"][0] in NO_MEANING and n > 0))
    rec.label("valid" if valid else "invalid" if cls else "absent", "forbidden" if forbidden else "allowed", "body" if n else "empty")


CHECKS = [Check("verdicts", cases, check, n=12000, note="reference model of the length and unexpected-content verdicts")]
