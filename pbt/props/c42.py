"""C42: linting takes moderate memory, whatever the content expands to, and keeps none of it."""
import functools
import gc
import tracemalloc
import weakref
import zlib

import brotli
from hypothesis import strategies as st

from pbt import gen, lib
from pbt.core import Check, require, same
from pbt.props import c40, c41

MB = 1 << 20
LIMIT = 100 * MB  # what httplint says it decodes at most
PEAK = 32 * MB  # the most seen is some 8 MB
RULE = "a case is a message that expands to a hundred times its size or more, or has a part repeated in it; non-trivial when it does (by 1 MB at least), or at least 100 times, or leaves findings"
ASSUMPTIONS = ["what Python allocates, as told by tracemalloc, is what linting uses; what the decompressors use themselves is bounded by their windows",
               f"linting uses at most {PEAK // MB} MB and 16 times the length of the message; what it took at most when this was written is a quarter of that",
               "interned strings and the caches of the interpreter, up to 4 KB for each message, aren't counted as kept"]
S = st.sampled_from
UNITS = [b"\0", b"a", b"<p>hello</p>\n", b"\xff\xfe", b"0123456789" * 3]


@functools.lru_cache(maxsize=64)
def expanding(coding, unit, size):
    """A body that expands to at least `size` bytes of a repeated unit when the coding is removed."""
    block = unit * (MB // len(unit) + 1)
    if coding == "br":
        comp = brotli.Compressor(quality=1 if size > 8 * MB else 5)
        parts = [comp.process(block) for _ in range(-(-size // len(block)))]
        return b"".join(parts) + comp.finish()
    comp = zlib.compressobj(9, zlib.DEFLATED, 31)
    parts = [comp.compress(block), comp.flush(zlib.Z_FULL_FLUSH)]
    again = [comp.compress(block) + comp.flush(zlib.Z_FULL_FLUSH)]  # decodes to the same wherever it is
    return b"".join(parts + again * (-(-size // len(block)) - 1)) + comp.flush()[:-8] + b"\0" * 8


@st.composite
def bombs(draw):
    coding = draw(S(["br", "br", "gzip", "x-gzip"]))
    size = draw(S([MB, 8 * MB, 64 * MB, 99 * MB, 101 * MB, 256 * MB, 1024 * MB]))
    outer = draw(st.lists(S(["gzip", "br", "deflate", "identity"]), max_size=2))
    return {"coding": coding, "unit": draw(st.integers(0, len(UNITS) - 1)), "size": size, "outer": outer, "chunks": draw(S([1, 1, 2, 50])),
            "kind": draw(S(["response", "response", "request"])), "type": draw(S(["", "text/html", "text/plain; charset=utf-8", "application/json", "image/png"]))}


def peak_of(do):
    tracemalloc.start()
    try:
        before = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        out = do()
        return out, tracemalloc.get_traced_memory()[1] - before
    finally:
        tracemalloc.stop()


def check_bomb(case, rec):
    body = expanding(case["coding"].replace("x-", ""), UNITS[case["unit"]], case["size"])
    for coding in case["outer"]:
        if coding == "br":
            body = brotli.compress(body, quality=1)
        elif coding == "gzip":
            comp = zlib.compressobj(6, zlib.DEFLATED, 31)
            body = comp.compress(body) + comp.flush()
    step = -(-len(body) // case["chunks"])
    headers = [(b"Content-Encoding", ", ".join([case["coding"], *case["outer"]]).encode())]
    if case["type"]:
        headers.append((b"Content-Type", case["type"].encode()))
    m = lib.msg(case["kind"], headers, chunks=[body[i:i + step] for i in range(0, len(body), step)])
    linter, peak = peak_of(lambda: lib.lint(m))
    require(peak <= PEAK + 16 * len(body), f"linting a body of {len(body)} bytes took {peak} bytes of memory")
    require(linter.decoded.length <= LIMIT, f"decoding went on to {linter.decoded.length} bytes after the limit")
    over = case["size"] > LIMIT
    same(lib.names(linter).count("DECOMPRESSION_LIMIT"), int(over), f"DECOMPRESSION_LIMIT for {case['size']} bytes")
    rec.nt(case["size"] >= MB)
    rec.label(case["coding"])
    rec.label("over the limit" if over else "within the limit")


def check_input(case, rec):
    m, times = c40.build(case)
    size = 4 * c40.SIZE + sum(len(c) for c in m["chunks"])
    linter, peak = peak_of(lambda: lib.lint(m))
    require(peak <= PEAK + 16 * size, f"linting a message of some {size} bytes took {peak} bytes of memory")
    _, peak = peak_of(lambda: c40.render(linter))
    require(peak <= PEAK + 16 * size, f"rendering what was found took {peak} bytes of memory")
    rec.nt(times >= 100)
    rec.label(case["what"])


@st.composite
def kept(draw):
    if draw(st.booleans()):
        return {"message": draw(c41.CASES)[0], "pad": draw(S([0, 3000, 20000]))}
    name = draw(S(gen.ALL_FIELDS))
    value = draw(gen.field_value(name))
    return {"message": draw(S([lib.req, lib.resp]))([(name.encode(), value)]), "pad": draw(S([0, 3000, 20000]))}


def check_kept(case, rec):
    m = dict(case["message"])
    pad = b"x" * case["pad"]
    if pad:
        m["headers"] = list(m["headers"]) + [(b"X-Pad-Other", pad), (b"Link", b"<" + pad + b">; rel=next")]
        m["chunks"] = list(m.get("chunks") or []) + [pad]

    def once():
        linter = lib.lint(m)
        c40.render(linter)
        return linter

    linter = once()
    notes = lib.all_notes(linter.notes)
    rec.nt(bool(notes))
    watched = {f"the {m['kind']} linter": weakref.ref(linter)}
    watched.update((f"the handler of {h.canonical_name}", weakref.ref(h)) for s in (linter.headers, linter.trailers) for h in s.handlers.values())
    watched.update((f"a {type(n).__name__} finding", weakref.ref(n)) for n in notes)
    del linter, notes
    gc.collect()
    for what, ref in watched.items():
        require(ref() is None, f"{what} is kept when the linter has gone", message=m["headers"])
    if case["pad"]:
        tracemalloc.start()
        try:
            once()
            gc.collect()
            before = tracemalloc.get_traced_memory()[0]
            for _ in range(4):
                once()
            gc.collect()
            grown = tracemalloc.get_traced_memory()[0] - before
        finally:
            tracemalloc.stop()
        require(grown < 4 * 4096 or grown < 4 * case["pad"] // 2, f"{grown} bytes are kept after linting a message with {case['pad']} characters in a value four times", message=str(m["headers"])[:300])
        rec.label("growth measured")


CHECKS = [
    Check("bombs", bombs, check_bomb, n=160, thorough=3000, note="bodies that expand to as much as 1 GB, in layers of codings"),
    Check("values", c40.values, check_input, n=900, thorough=15000),
    Check("spaced", c40.spaced, check_input, n=400, thorough=8000),
    Check("lines", c40.lines, check_input, n=200, thorough=4000),
    Check("pairs", c40.pairs, check_input, n=160, thorough=3000),
    Check("contents", c40.contents, check_input, n=160, thorough=3000),
    Check("kept", kept, check_kept, n=700, thorough=9000, note="weak references to what was made for a linter, and the memory it takes, after it is gone"),
]
