"""C05: content decoding agrees with the declared codings."""
import gzip
import hashlib
import re
import zlib

import brotli
from hypothesis import strategies as st

from pbt import lib
from pbt.core import Check, Skip, require, same
from pbt.props import c04

RULE = "a case is a payload, a list of codings and a split; non-trivial when at least one coding applies and the payload is not empty"
ASSUMPTIONS = ["each gzip coding is one gzip member with nothing after it, as user agents require"]
S = st.sampled_from
KNOWN = ("gzip", "x-gzip", "br")
PROBLEMS = c04.DECODING
SAMPLE = 8192


@st.composite
def valid(draw):
    payload = draw(c04.payloads())
    names = draw(st.lists(S(["gzip", "x-gzip", "br", "gzip", "br", "deflate", "identity", "zstd", "foo", "compress"]), max_size=4))
    applied = c04.encode(draw, payload, names)
    spelled = [draw(S([n, n, n.upper(), n.title()])) for n in names]
    # on one line, or several
    lines, cur = [], []
    for n in spelled:
        cur.append(n)
        if draw(st.integers(0, 3)) == 0:
            lines.append(cur)
            cur = []
    if cur:
        lines.append(cur)
    sep = draw(S([", ", ",", " , ", ", ,"]))
    return {"payload": c04.pack(payload), "codings": names, "headers": [(draw(S([b"Content-Encoding", b"content-encoding"])), sep.join(l).encode()) for l in lines],
            "body": c04.pack(applied), "cuts": c04.pack_cuts(draw(c04.cuts(len(applied)))), "kind": draw(S(["response", "request"]))}


def check_valid(case, rec):
    payload, body = c04.unpack(case["payload"]), c04.unpack(case["body"])
    m = lib.msg(case["kind"], case["headers"], chunks=c04.split(body, case["cuts"]))
    l = lib.lint(m)
    what = f"{case['codings']} body of {len(payload)} bytes"
    require(not set(lib.names(l)) & PROBLEMS, "%s: reported %r", what, set(lib.names(l)) & PROBLEMS)
    same(l.decoded.length, len(payload), what + ": decoded length")
    same(l.decoded.hash, hashlib.md5(payload).digest(), what + ": decoded hash")
    same(l.content_sample, payload[:SAMPLE], what + ": content sample")
    same(l.content_length, len(body), what + ": content length")
    same(l.content_hash, hashlib.md5(body).digest(), what + ": content hash")
    rec.nt(bool(payload) and bool(set(case["codings"]) & set(KNOWN)))
    rec.label(*[c for c in case["codings"]] or ["none"])


# --- bodies that are not what the coding says ---

@st.composite
def corrupt(draw):
    payload = draw(st.one_of(st.binary(min_size=1, max_size=400), st.text(min_size=5, max_size=200).map(lambda t: t.encode("utf-8", "replace")), S([b"hello " * 2000]), st.binary(min_size=16, max_size=64).map(lambda b: bytes((x * 7 + i * i // 5) % 251 for i in range(1200) for x in b))))
    coding = draw(S(["gzip", "x-gzip", "br"]))
    how = draw(S(["magic", "method", "deflate", "plain", "flip", "other"]))
    if coding == "br":
        how = draw(S(["plain", "flip", "other"]))
    if how == "plain":
        body = payload
    elif how == "other":
        body = brotli.compress(payload) if coding != "br" else gzip.compress(payload, mtime=0)
    elif coding == "br":
        body = brotli.compress(payload, quality=5)
        i = draw(st.integers(0, len(body) - 1))
        body = body[:i] + bytes([body[i] ^ (1 << draw(st.integers(0, 7)))]) + body[i + 1:]
    else:
        good = c04.gz(payload, draw)
        if how == "magic":
            body = draw(S([b"\x1f\x8c", b"\x1e\x8b", b"\x00\x00", b"PK"])) + good[2:]
        elif how == "method":
            body = good[:2] + bytes([draw(st.integers(0, 255).filter(lambda b: b != 8))]) + good[3:]
        elif how == "deflate":
            body = gzip.compress(payload, mtime=0)[:10] + bytes([draw(S([0x07, 0xff, 0x06]))]) + draw(st.binary(min_size=4, max_size=30))
        else:
            good = gzip.compress(payload, mtime=0)
            i = draw(st.integers(10, max(10, len(good) - 9)))
            body = good[:i] + bytes([good[i] ^ (1 << draw(st.integers(0, 7)))]) + good[i + 1:]
    return {"coding": coding, "body": body, "cuts": c04.pack_cuts(draw(c04.cuts(len(body))))}


def reference(coding, body):
    """('ok', data) | ('bad', (kind, reason)) | ('short', data): what a reference decoder makes of body."""
    if coding == "br":
        d = brotli.Decompressor()
        try:
            data = more = d.process(body)
            while more:  # it doesn't give everything at once for a stream without its end
                more = d.process(b"")
                data += more
        except brotli.error:
            return "bad", ("BAD_BROTLI", "ecode")  # it doesn't give reasons
        return ("ok" if d.is_finished() else "short"), data
    if len(body) < 10:
        return "short", b""
    if body[:2] != b"\x1f\x8b" or body[2] != 8:
        return "bad", ("BAD_GZIP", body[:2].hex() if body[:2] != b"\x1f\x8b" else "method")
    pos, flags = 10, body[3]
    try:
        if flags & 4:
            pos += 2 + body[pos] + 256 * body[pos + 1]
        for bit in (8, 16):
            if flags & bit:
                pos = body.index(b"\0", pos) + 1
    except (IndexError, ValueError):
        return "short", b""
    if flags & 2:
        pos += 2
    if pos > len(body):
        return "short", b""
    d = zlib.decompressobj(-15)
    try:
        return "ok", d.decompress(body[pos:])
    except zlib.error as why:
        return "bad", ("BAD_ZLIB", str(why).rpartition(": ")[2])


def shown(data, limit=40):
    """How arbitrary bytes are shown: the first characters, with those that can't be printed (and bytes that aren't UTF-8) as hex."""
    out = []
    for c in data.decode("utf-8", "backslashreplace")[:limit]:
        out.append(c if c.isprintable() else "\\x" + c.encode("utf-8").hex())
    return "".join(out)


def check_corrupt(case, rec):
    body, chunks = case["body"], c04.split(case["body"], case["cuts"])
    m = lib.resp([(b"Content-Encoding", case["coding"].encode())])
    l = lib.make(m)
    l.process_response_topline(*m["top"])
    l.process_headers(m["headers"])
    fed, at_error = 0, None
    for chunk in chunks:
        l.feed_content(chunk)
        fed += len(chunk)
        if at_error is None and set(lib.names(l)) & PROBLEMS:
            at_error = fed, chunk
    l.finish_content(True)
    verdict, data = reference(case["coding"], body)
    got = sorted(n for n in lib.names(l) if n in PROBLEMS)
    if verdict == "bad":
        data, reason = data
    rec.label(verdict if verdict != "bad" else data)
    rec.nt(verdict == "bad")
    if verdict == "bad":
        same(got, [data], f"problems reported for a corrupt {case['coding']} body {body[:40]!r}")
        note = next(n for n in l.notes if type(n).__name__ == data)
        why = str(note.vars[{"BAD_GZIP": "gzip_error", "BAD_ZLIB": "zlib_error", "BAD_BROTLI": "brotli_error"}[data]])
        require(reason in why, "the reason for %s is %r, but a reference decoder says %r", data, why, reason)
        if data != "BAD_GZIP":
            note = next(n for n in l.notes if type(n).__name__ == data)
            before, sample = [note.vars[k] for k in (("ok_brotli_len", "chunk_sample") if data == "BAD_BROTLI" else ("ok_zlib_len", "chunk_sample"))]
            same(re.sub("[^0-9]", "", str(before)), str(l.decoded.length), f"bytes said to be decompressed before {data}")
            fed, chunk = at_error
            if data == "BAD_BROTLI":
                same(str(sample), shown(chunk), "the start of the erroneous chunk")
            else:
                # the chunk, without the part of the header in it
                require(any(str(sample) == shown(body[i:fed]) for i in range(fed - len(chunk), fed + 1)), "%r isn't the start of the erroneous chunk %r", sample, chunk[:80])
            rec.label("some decoded" if l.decoded.length else "none decoded")
    else:
        same(got, [], f"problems reported for a decodable {case['coding']} body {body[:40]!r}")
        same(l.decoded.length, len(data), "decoded length")
        same(l.content_sample, data[:SAMPLE], "content sample")
    same(l.content_length, len(body), "content length")
    same(l.content_hash, hashlib.md5(body).digest(), "content hash")


# --- the size limit ---
LIMIT = 100 * 1024 * 1024


def limits(tier):
    out = []
    for coding in ("gzip", "br"):
        for size in (LIMIT, LIMIT + 1, LIMIT * 2 if tier == "thorough" else LIMIT + 5_000_000, 1 << 20):
            for nchunks in (1, 50):
                out.append((coding, size, nchunks))
    return out


def check_limit(case, rec):
    coding, size, nchunks = case
    if coding == "gzip":
        comp = zlib.compressobj(1, zlib.DEFLATED, 31)
        parts = []
        block = b"\0" * (1 << 20)
        left = size
        while left:
            n = min(left, len(block))
            parts.append(comp.compress(block[:n]))
            left -= n
        body = b"".join(parts) + comp.flush()
    else:
        body = brotli.compress(b"\0" * size, quality=1)
    step = max(1, -(-len(body) // nchunks))
    l = lib.lint(lib.resp([(b"Content-Encoding", coding.encode())], chunks=[body[i:i + step] for i in range(0, len(body), step)]))
    got = [n for n in lib.names(l) if n in PROBLEMS]
    over = size > LIMIT
    same(got, ["DECOMPRESSION_LIMIT"] if over else [], f"problems for {coding} of {size} bytes in {nchunks} chunks")
    if over:
        require(l.decoded.length <= LIMIT, "decoding went on to %d bytes after the limit", l.decoded.length)
    else:
        same(l.decoded.length, size, "decoded length")
    rec.nt()
    rec.label("over" if over else "within")


CHECKS = [
    Check("valid", valid, check_valid, n=4000, note="round trip: payload -> codings -> linter against the payload's length, MD5 and first 8192 bytes"),
    Check("corrupt", corrupt, check_corrupt, n=4000, note="corrupted bodies against reference decoders (zlib, brotli)"),
    Check("limit", None, check_limit, enum=limits, note="bodies around the 100 MB limit", shards=4),
]
