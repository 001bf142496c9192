"""C24: no_content mode."""
from hypothesis import strategies as st

from pbt import gen, lib, pool, scenarios
from pbt.core import Check, require, same
from pbt.props import c04, c06

RULE = "a case is a message and another body; non-trivial when normal mode has findings about the content"
ASSUMPTIONS = []
S = st.sampled_from
CONTENT = {"CL_CORRECT", "CL_INCORRECT", "CONTENT_NOT_ALLOWED", "REQUEST_CONTENT_NOT_DEFINED", "BAD_GZIP", "BAD_ZLIB", "BAD_BROTLI", "DECOMPRESSION_LIMIT", "CONTENT_TYPE_MISMATCH"}


def about_content(key):
    return key[0] in CONTENT or key[0].startswith("CHARSET_")


@st.composite
def typed(draw):
    """A body that contradicts its declared type, charset or coding."""
    body = draw(S([b"\x89PNG\r\n\x1a\n" + b"\0" * 20, b"GIF89a" + b"\0" * 20, b"%PDF-1.4", b"<!DOCTYPE html><html>", b"caf\xe9", b"\xff\xfe\x00", b"{\"a\": \"\xe9\"}", b"hello", b"", b"\x1f\x8b\x08", b"\xc3\xa9" * 5000]))
    hs = [(b"Content-Type", draw(S([b"text/html", b"text/html; charset=utf-8", b"text/plain;charset=ascii", b"image/png", b"image/gif", b"application/json", b"text/plain", b"application/pdf", b"x"])))]
    if draw(st.booleans()):
        hs.append((b"Content-Encoding", draw(S([b"gzip", b"br", b"gzip, br"]))))
    if draw(st.booleans()):
        hs.append((b"Content-Length", str(draw(S([0, 1, len(body), 10**6]))).encode()))
    m = lib.msg(draw(S(["response", "response", "request"])), hs, chunks=[body])
    if m["kind"] == "response":
        m["top"] = (b"HTTP/1.1", draw(S([b"200", b"304", b"404", b"206", b"204"])), b"x")
        m["head"] = draw(S([False, False, True]))
    else:
        m["top"] = (draw(S([b"GET", b"POST", b"HEAD", b"DELETE"])), b"http://example.com/", b"HTTP/1.1")
    return m


@st.composite
def cases(draw, source=None):
    m = draw(source if source is not None else st.one_of(gen.message(), c06.cases(), typed(), typed(), scenarios.charset(), scenarios.caching(), scenarios.status(), scenarios.conditional(), scenarios.cors(), scenarios.security()))
    m = {k: v for k, v in m.items() if k != "no_content"}
    other = draw(st.one_of(gen.bodies(), S([b"", b"x", b"\x89PNG\r\n\x1a\n", b"\x1f\x8b\x08\x00bad", b"\xff" * 9000])))
    return {"m": m, "other": [other] if draw(st.booleans()) else c04.split(other, c04.pack_cuts(draw(c04.cuts(len(other)))))}


def check(case, rec):
    m = case["m"]
    normal = lib.lint(m)
    quiet = lib.lint(dict(m, no_content=True))
    keys = lib.note_keys(normal)
    want = [k for k in keys if not about_content(k)]
    same(lib.note_keys(quiet), want, "findings with no_content, compared with those of normal mode that aren't about the content")
    blind = lib.lint(dict(m, no_content=True, chunks=case["other"]))
    same(lib.note_keys(blind), want, "findings with no_content and another body")
    none = lib.lint(dict(m, no_content=True, chunks=[]))
    same(lib.note_keys(none), want, "findings with no_content and no body")
    same(lib.parsed(quiet), lib.parsed(normal), "parsed fields with no_content")
    ra, rb = lib.results(normal), lib.results(quiet)
    for k in ("caching", "status", "uri", "character_encoding", "complete", "text"):
        if k in ra:
            same(rb[k], ra[k], f"{k} with no_content")
    require([n.summary for n in quiet.notes] == [n.summary for n in normal.notes if not about_content((type(n).__name__,))], "summaries differ with no_content")
    rec.nt(len(want) < len(keys))
    rec.label(*{k[0] for k in keys if about_content(k)})


CHECKS = [Check("dropped", cases, check, n=10000, note="differential: no_content against normal mode; any other body in no_content mode"),
          Check("faulty", lambda: cases(pool.messages()), check, n=3000, note="messages like those of the other properties' checks")]
