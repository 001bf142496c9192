"""C04: how the body is chunked never changes the result."""
import gzip
import zlib

import brotli
from hypothesis import strategies as st

from pbt import gen, lib, pool, scenarios
from pbt.core import Check, require, same

RULE = ("a case is a message and two ways of splitting its body; it is non-trivial when the body has at "
        "least two bytes and the two splits differ")
ASSUMPTIONS = ["bodies up to about 3 MB decoded; the whole body is delivered under every split"]
S = st.sampled_from


@st.composite
def payloads(draw):
    how = draw(st.integers(0, 8))
    if how < 3:
        return draw(gen.bodies())
    if how == 3:
        unit = draw(S([b"a", b"abc\n", "é".encode(), "日本".encode(), b"\x00\xff", b"<p>x</p>", "Привет ".encode("koi8-r"), "caf\u00e9 ".encode("latin-1")]))
        return (b"x" * draw(st.integers(0, 3)) + unit * 9000)[: draw(S([4095, 8190, 8191, 8192, 8193, 8194, 9000, 16384, 20000]))]
    if how == 4:
        return draw(S(scenarios.TEXTS)).encode(draw(S(["utf-8", "koi8-r", "shift_jis", "gbk", "utf-16"])), "replace") * draw(S([1, 30, 100]))
    if how == 5:
        return b"z" * draw(S([70000, 300000]))
    if how == 6:
        # lots of output from very little input
        return b"\x00" * draw(S([1048575, 1048576, 1048577, 2500000])) + b"end"
    if how == 7:
        return draw(S([b"\xef\xbb\xbf", b"\xff\xfe", b"\x1f\x8b", b"GIF89a", b"%PDF-", b"<html>", b"{", b"PK\x03\x04"])) + draw(st.binary(max_size=50))
    return draw(st.binary(max_size=300))


def gz(data, draw):
    how = draw(st.integers(0, 3))
    if how < 2:
        return gzip.compress(data, draw(S([1, 6, 9])), mtime=0)
    comp = zlib.compressobj(9, zlib.DEFLATED, -15)
    flags, extra = 0, b""
    if draw(st.booleans()):
        flags |= 4
        blob = draw(st.one_of(st.binary(max_size=20), S([255, 256, 257, 300, 600, 65535]).map(bytes)))
        extra += len(blob).to_bytes(2, "little") + blob
    if draw(st.booleans()):
        flags |= 8
        extra += draw(st.one_of(S([b"", b"name.txt", b"n" * 300, b"a\nb", b"\r\n"]), st.binary(max_size=8).map(lambda b: b.replace(b"\0", b"\n")))) + b"\x00"
    if draw(st.booleans()):
        flags |= 16
        extra += draw(st.one_of(S([b"", b"a comment", b"two\nlines", b"c" * 300]), st.binary(max_size=8).map(lambda b: b.replace(b"\0", b"\n")))) + b"\x00"
    if draw(st.booleans()):
        flags |= 2
        extra += b"\x12\x34"
    return (b"\x1f\x8b\x08" + bytes([flags | draw(S([0, 1]))]) + b"\x00\x00\x00\x00\x02\xff" + extra
            + comp.compress(data) + comp.flush() + zlib.crc32(data).to_bytes(4, "little") + (len(data) & 0xffffffff).to_bytes(4, "little"))


def encode(draw, data, codings):
    for c in codings:
        if c in ("gzip", "x-gzip"):
            data = gz(data, draw)
        elif c == "br":
            data = brotli.compress(data, quality=draw(S([1, 5])))
    return data


@st.composite
def message(draw):
    kind = draw(S(["response", "response", "request"]))
    codings = draw(S([[], [], ["gzip"], ["gzip"], ["br"], ["x-gzip"], ["br", "gzip"], ["gzip", "br"], ["deflate"], ["gzip", "gzip"], ["identity", "gzip"]]))
    body = encode(draw, draw(payloads()), codings)
    if codings and draw(st.integers(0, 4)) == 0 and body:
        i = draw(st.integers(0, min(len(body) - 1, 400)))
        body = draw(S([body[:i], body[:i] + bytes([body[i] ^ draw(st.integers(1, 255))]) + body[i + 1:], body + b"junk", body[i:]]))
    hs = []
    if codings:
        hs.append((b"Content-Encoding", ", ".join(codings).encode()))
    if draw(st.booleans()):
        hs.append((b"Content-Type", draw(S([b"text/html", b"text/plain; charset=utf-8", b"text/html;charset=koi8-r", b"application/json", b"text/css; charset=iso-8859-1", b"image/png", b"text/plain;charset=shift_jis", b"text/plain; charset=utf-16"]))))
    if draw(st.booleans()):
        hs.append((b"Content-Length", str(len(body) + draw(S([0, 0, 1, -1]))).encode()))
    hs += draw(gen.headers(kind, 3))
    m = {"kind": kind, "top": (b"HTTP/1.1", draw(S([b"200", b"206", b"404", b"304", b"204"])), b"x") if kind == "response" else (draw(S([b"GET", b"POST"])), b"http://example.com/", b"HTTP/1.1"),
         "headers": hs, "trailers": draw(S([None, [], [(b"ETag", b'"x"')]])), "start": draw(S([None, 1309770486.0])), "no_content": draw(S([False, False, False, True])), "complete": draw(S([True, True, False]))}
    if kind == "response":
        m["head"] = draw(S([False, False, True]))
    return m, body


@st.composite
def cuts(draw, n):
    how = draw(st.integers(0, 5))
    if how == 0 and n <= 3000:
        return list(range(1, n))
    if how == 1:
        return []
    if how == 2:
        step = draw(S([1, 2, 3, 7, 100, 1000, 8191, 8192, 8193]))
        if n // step < 3000:
            return list(range(step, n, step))
    pos = st.integers(0, n)
    near = st.integers(0, min(n, 30))
    edge = st.integers(0, 4).map(lambda k: min(n, 8190 + k))
    return sorted(draw(st.lists(st.one_of(pos, near, edge, near.map(lambda k: n - k)), max_size=12)))


@st.composite
def cases(draw):
    m, body = draw(message())
    return {"m": m, "body": pack(body), "a": pack_cuts(draw(cuts(len(body)))), "b": pack_cuts(draw(cuts(len(body))))}


@st.composite
def faulty(draw):
    m = draw(pool.messages())
    body = b"".join(m.get("chunks", ())) or draw(payloads())[:3000]
    m = {k: v for k, v in m.items() if k != "chunks"}
    return {"m": m, "body": pack(body), "a": pack_cuts(draw(cuts(len(body)))), "b": pack_cuts(draw(cuts(len(body))))}


def pack(body):
    """Long runs are stored compressed so cases stay printable."""
    if len(body) < 2000:
        return ("raw", body)
    return ("zlib", zlib.compress(body, 9))


def unpack(p):
    return p[1] if p[0] == "raw" else zlib.decompress(p[1])


def pack_cuts(c):
    if len(c) > 20 and len({b - a for a, b in zip(c, c[1:])}) == 1:
        return ("every", c[1] - c[0])
    return ("at", c)


def split(body, c):
    at = list(range(c[1], len(body), c[1])) if c[0] == "every" else c[1]
    at = [0] + list(at) + [len(body)]
    return [body[i:j] for i, j in zip(at, at[1:])]


DECODING = {"BAD_GZIP", "BAD_ZLIB", "BAD_BROTLI", "DECOMPRESSION_LIMIT"}


def brotli_broken(codings, body):
    """
    Whether a Brotli decoder is given something that isn't (the start of) a stream; how much the library's
    streaming decoder gives out for that depends on how it is delivered.
    """
    stages = [c for c in reversed(codings) if c in ("gzip", "x-gzip", "br")]
    try:
        for i, coding in enumerate(stages):
            rest = stages[i:]
            if coding == "br":
                decoder = brotli.Decompressor()
                data = more = decoder.process(body)
                while more:
                    more = decoder.process(b"")
                    data += more
                body = data
            else:
                body = zlib.decompressobj(31).decompress(body)
    except (brotli.error, zlib.error):
        return "br" in rest
    return False


def check(case, rec):
    body = unpack(case["body"])
    ca, cb = split(body, case["a"]), split(body, case["b"])
    assert b"".join(ca) == body == b"".join(cb)
    a = lib.lint(dict(case["m"], chunks=ca))
    b = lib.lint(dict(case["m"], chunks=cb))
    bad = set(lib.names(a)) & DECODING
    rec.nt(len(body) > 1 and ca != cb)
    rec.label("broken" if bad else "fine", "empty chunks" if b"" in ca + cb else "no empty chunks")
    what = f"with the body split at {case['b']} instead of {case['a']}"
    vague = brotli_broken(a.headers.parsed.get("content-encoding", []), body)
    if bad or vague:
        # how much of a broken body was decoded before the error may depend on delivery
        got = set(lib.names(b)) & DECODING
        if len(a.headers.parsed["content-encoding"]) > 1:
            # what was decoded before the error may itself be broken
            require(vague or got, "no decoding problem %s", what)
        else:
            same(sorted(got), sorted(bad), "decoding problems " + what)
        keep = lambda l: [lib.note_key(n) for n in l.notes if type(n).__name__ not in DECODING and n.subject != "field-content-type"]
        same(keep(b), keep(a), "other findings " + what)
        same((b.content_length, b.content_hash, lib.parsed(b)), (a.content_length, a.content_hash, lib.parsed(a)), "received length, hash and fields " + what)
        return
    same(lib.note_keys(b), lib.note_keys(a), "findings " + what)
    ra, rb = lib.results(a), lib.results(b)
    for key in ra:
        same(rb[key], ra[key], f"{key} {what}")


CHECKS = [
    Check("splits", cases, check, n=5000, note="the same message with its body split two ways: all findings and results must be equal"),
    Check("faulty", faulty, check, n=2500, note="messages like those of the other properties' checks"),
]
