"""C40: linting takes moderate time, whatever is in the message."""
import gzip
import signal
import time
import zlib

from hypothesis import strategies as st

from pbt import core, gen, lib
from pbt.core import Check, Violation

LIMIT = 10  # seconds of CPU time; the slowest messages of these sizes take about two on the machine this was written on
SIZE = 16000
MANY, TIMES, FLOOR = 30000, 8, 3
RULE = "a case is a message with a part repeated until it is some 16,000 characters (128 KB of content); non-trivial when the repeated part is in what is linted at least 100 times"
ASSUMPTIONS = [f"a message with 16,000 characters in one place, 1,000 lines or 128 KB of content is linted, and up to 200 of what is found rendered, within {LIMIT} s of CPU time; "
               "what takes longer grows at least with the cube of the size, or with the square and a large factor, and stays unnoticed below that",
               f"{TIMES} times as many lines, members, parameters, names, trailers or chunks, {MANY:,} in all, take no more than {3 * TIMES} times as long, where they take more than {FLOOR} s at all",
               "repeating a part of a well-formed or near-well-formed value reaches the slow cases of the patterns and loops that have one"]
S = st.sampled_from
PUMPS = ["[", '{"a":', "(", '"', "\\", "(a ", ";a", ",a", ",", "a,", "a=", "=", "<", "W/", "'", "%", ":", "a=1;", "*", " ", "1", "-", "\t", "((", "\xe9", "a",
         '\\"', "a b", "a/", "0.", "?", "&", "@", ".", "//", "a.", "\\(", "()", "; ", ", ", " ,", "<>;", "a;", '"a"', "=a,", "=a;", "a =", "%20", "::", "1.1 a,",
         "a\t", "1,", "(a)", "( )", "1 a ", ' "a', "a:", "</a>,", '"",', "a a,", "[]", "{}", "[[],", '{"a":1},', "1-1,", "-1,", "bytes ", "Sun, ", "00:00", "\xa0", "_"]
SUFFIXES = ["", "\x01", '"', "(", "\x80", ",", "!", "  x", "]", "}", ";", "=", "'", ")", "\\", "\t\x7f", ">", "%", "/", ":"]


def text_of(parts, size):
    """The parts (text, pumped?) with what is pumped repeated so that the whole is some `size` characters."""
    pumped = sum(len(t) for t, again in parts if again)
    times = max(1, size // pumped) if pumped else 1
    return "".join(t * times if again else t for t, again in parts), times if pumped else 0


@st.composite
def pumped(draw, base):
    """(text, pumped?) parts made from a text by repeating one or two places of it."""
    base = base[:160]
    places = sorted(draw(st.lists(st.integers(0, len(base)), min_size=1, max_size=2)))
    out, at = [], 0
    for place in places:
        out.append((base[at:place], False))
        at = place
        length = draw(st.integers(1, 12))
        if draw(st.booleans()) and base[place:place + length]:
            out.append((base[place:place + length], True))
            if draw(st.booleans()):
                at = place + length
        else:
            out.append(("".join(draw(st.lists(S(PUMPS), min_size=1, max_size=2))), True))
    out.append((draw(S(["", base[at:], base[at:]])) + draw(S(SUFFIXES)), False))
    return [p for p in out if p[0]]


FAMILIES = [
    ["Cache-Control", "Age", "Date", "Expires", "Vary", "CDN-Cache-Control", "Pragma", "Authorization"],
    ["Vary", "Accept", "Accept-Language", "Accept-Encoding", "Content-Type", "Content-Language", "Content-Encoding", "TE", "Transfer-Encoding", "Trailer"],
    ["ETag", "If-None-Match", "If-Match", "Last-Modified", "If-Modified-Since", "If-Range", "Range", "Content-Range", "Accept-Ranges"],
    ["Origin", "Access-Control-Allow-Origin", "Access-Control-Request-Headers", "Access-Control-Allow-Headers", "Access-Control-Request-Method", "Access-Control-Allow-Methods", "Vary"],
    ["NEL", "Report-To", "Reporting-Endpoints", "Content-Security-Policy", "Content-Security-Policy-Report-Only", "Permissions-Policy"],
]


def kind_of(name):
    return S([k for k, flag in (("request", "req"), ("response", "resp")) if gen.CORPUS[name][flag]] or ["response"])


@st.composite
def values(draw):
    name = draw(S(gen.ALL_FIELDS))
    samples = [", ".join(i) for i in gen.CORPUS[name]["inputs"]] or ["a"]
    base = draw(st.one_of(S(samples), S(samples), gen.field_value(name).map(lambda v: v.decode("latin-1"))))
    parts = draw(pumped(base))
    kind = draw(kind_of(name))
    return {"what": draw(S(["field", "field", "field", "field", "trailer"])), "kind": kind, "name": name, "parts": parts}


@st.composite
def spaced(draw):
    """Whitespace, quotes and comments repeated in several places of a value."""
    name = draw(S(gen.ALL_FIELDS))
    base = draw(S([", ".join(i) for i in gen.CORPUS[name]["inputs"]] or ["a"]))[:80]
    places = sorted(draw(st.lists(st.integers(0, len(base)), min_size=1, max_size=2)) + [draw(S([0, len(base)]))])
    out, at = [], 0
    for place in places:
        out += [(base[at:place], False), (draw(S([" ", " ", "\t", '\\"', '"', "(", "\\(", "()", ",", ";"])), True)]
        at = place
    out.append((base[at:] + draw(S(SUFFIXES)), False))
    return {"what": "field", "kind": draw(kind_of(name)), "name": name, "parts": [p for p in out if p[0]]}


@st.composite
def pairs(draw):
    """Two fields that are looked at together, in one message or in a request and its response."""
    family = draw(S(FAMILIES))
    fields = []
    for _ in range(2):
        name = draw(S(family))
        base = draw(st.one_of(S([", ".join(i) for i in gen.CORPUS[name]["inputs"]] or ["a"]), gen.field_value(name).map(lambda v: v.decode("latin-1"))))
        fields.append((name, draw(pumped(base))))
    return {"what": "pair", "fields": fields, "parts": fields[0][1], "kind": draw(S(["request", "response"])), "together": draw(st.booleans()), "status": draw(S([200, 206, 304, 412]))}


@st.composite
def lines(draw):
    name = draw(S(gen.ALL_FIELDS))
    kind = draw(kind_of(name))
    samples = [", ".join(i) for i in gen.CORPUS[name]["inputs"]] or ["a"]
    base = draw(st.one_of(S(samples), gen.field_value(name).map(lambda v: v.decode("latin-1"))))[:60]
    return {"what": draw(S(["lines", "lines", "names", "members", "trailers"])), "kind": kind, "name": name, "parts": [(base, True)], "numbered": draw(st.booleans())}


@st.composite
def tops(draw):
    where = draw(S(["target", "method", "version", "phrase", "name", "base", "status"]))
    base = draw(S(["http://example.com/a/b?c=d&e=f#g", "/a/b/../c;d=e,f?g", "http://user:pass@[::1]:80/%20", "//a.b.c/d", "GET", "*", "HTTP/1.1", "OK then", "X-A-B", "a:b:c"]))
    return {"what": where, "parts": draw(pumped(base))}


@st.composite
def contents(draw):
    base = draw(S(["<html><head><meta charset='utf-8'><title>a</title></head><body><p>b &amp; c</p></body></html>", "@charset \"utf-8\"; a { b: c }", '{"a": [1, "b", {"c": null}]}',
                   "<?xml version='1.0' encoding='utf-8'?><a b='c'>d</a>", "--THIS_STRING_SEPARATES\r\nContent-Range: bytes 0-1/2\r\n\r\nab\r\n--THIS_STRING_SEPARATES--\r\n", "a=b&c=d", "\x00\x01\xff\xfe",
                   "\xef\xbb\xbfa", "5\r\nhello\r\n0\r\n\r\n", "plain text\n"]))
    ctype = draw(S(["text/html", "text/html; charset=utf-8", "text/css", "application/json", "text/xml", "multipart/byteranges; boundary=THIS_STRING_SEPARATES", "text/plain; charset=utf-16", "text/plain", "image/png", "text/plain;charset=shift_jis", ""]))
    return {"what": "content", "parts": draw(pumped(base)), "type": ctype, "coding": draw(S(["", "", "gzip", "br", "deflate", "gzip-name", "gzip-comment", "gzip-extra", "gzip, gzip"])),
            "chunk": draw(S([1, 7, 100, 1000, 8192, 70000])), "status": draw(S([200, 206])), "kind": draw(S(["response", "response", "request"]))}


def build(case):
    """The message of a case, and how many times its repeated part is in it."""
    what = case["what"]
    if what == "content":
        chunk = case["chunk"]
        text, times = text_of(case["parts"], {1: 20000}.get(chunk, 131072))
        body = text.encode("latin-1", "replace")
        coding = case["coding"]
        if coding.startswith("gzip-"):
            flag = {"name": 8, "comment": 16, "extra": 4}[coding[5:]]
            body = b"\x1f\x8b\x08" + bytes([flag]) + b"\0\0\0\0\0\xff" + (b"\xff\xff" if flag == 4 else b"") + body.replace(b"\0", b"0") + gzip.compress(b"a")[10:]
        elif coding in ("gzip", "gzip, gzip"):
            body = gzip.compress(body, mtime=0)
            if coding != "gzip":
                body = gzip.compress(body, mtime=0)
        elif coding == "deflate":
            body = zlib.compress(body)
        headers = [(b"Content-Type", case["type"].encode())] if case["type"] else []
        if coding:
            headers.append((b"Content-Encoding", coding.split("-")[0].encode()))
        if case["status"] == 206:
            headers.append((b"Content-Range", b"bytes 0-%d/%d" % (len(body) - 1, len(body))))
        chunks = [body[i:i + chunk] for i in range(0, len(body), chunk)]
        if case["kind"] == "request":
            return lib.req(headers, method=b"POST", chunks=chunks), times
        return lib.resp(headers, status=case["status"], chunks=chunks), times
    text, times = text_of(case["parts"], SIZE)
    raw = text.encode("latin-1", "replace")
    if what == "pair":
        (one, _), (two, parts) = case["fields"]
        other = text_of(parts, SIZE)[0].encode("latin-1", "replace")
        if case["together"]:
            return lib.msg(case["kind"], [(one.encode(), raw), (two.encode(), other)]), times
        return lib.resp([(one.encode(), raw)], status=case["status"], related=lib.req([(two.encode(), other)])), times
    if what == "field":
        return lib.msg(case["kind"], [(case["name"].encode(), raw)]), times
    if what == "trailer":
        return lib.msg(case["kind"], [(b"Trailer", case["name"].encode())], trailers=[(case["name"].encode(), raw)]), times
    if what in ("lines", "names", "members", "trailers"):
        one = case["parts"][0][0].encode("latin-1", "replace")
        many = min(1000, 16000 // (len(one) + 1))
        each = [one + (b"%d" % i if case["numbered"] else b"") for i in range(many)]
        name = case["name"].encode()
        if what == "members":
            return lib.msg(case["kind"], [(name, b", ".join(each))]), many
        if what == "names":
            return lib.msg(case["kind"], [(name + b"-%d" % i, v) for i, v in enumerate(each)]), many
        if what == "trailers":
            return lib.msg(case["kind"], [], trailers=[(name, v) for v in each]), many
        return lib.msg(case["kind"], [(name, v) for v in each]), many
    if what in ("target", "method"):
        return lib.req([(b"Host", b"example.com")], **{"uri" if what == "target" else "method": raw}), times
    if what == "base":
        return lib.resp([(b"Location", b"../a"), (b"Link", b"<b>; rel=c"), (b"Content-Location", b"d")], base=text), times
    if what == "name":
        return lib.resp([(raw, b"a"), (raw + b"a", b"b")]), times
    top = {"version": (raw, b"200", b"OK"), "status": (b"HTTP/1.1", raw, b"OK"), "phrase": (b"HTTP/1.1", b"200", raw)}[what]
    return lib.msg("response", [(b"Content-Type", b"text/plain")], top=top), times


def within(limit, how, do):
    """Do it; a violation if that takes more than `limit` seconds of CPU time."""
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        return do()
    except core.TooSlow:
        raise Violation(f"{how} took more than {limit} s of CPU time") from None
    finally:
        signal.setitimer(signal.ITIMER_PROF, core.CPU_LIMIT)


def render(linter):
    for n in [n for n, _ in zip(lib.all_notes(linter.notes), range(200))]:
        _ = n.summary, n.detail


def check(case, rec):
    m, times = build(case)
    rec.label(case["what"])
    rec.nt(times >= 100)
    started = time.process_time()
    linter = within(LIMIT, "linting", lambda: lib.lint(m))
    within(LIMIT, "rendering what was found", lambda: render(linter))
    took = time.process_time() - started
    rec.label("under 0.1 s" if took < 0.1 else "0.1 to 1 s" if took < 1 else "more than 1 s")


# --- many more of something --------------------------------------------------------------------------


@st.composite
def numbers(draw):
    what = draw(S(["lines", "lines", "members", "parameters", "names", "trailers", "chunks", "chunks", "both"]))
    name = draw(S(gen.ALL_FIELDS))
    samples = [", ".join(i) for i in gen.CORPUS[name]["inputs"]] or ["a"]
    base = draw(st.one_of(S(samples), gen.field_value(name).map(lambda v: v.decode("latin-1"))))[:30]
    case = {"what": what, "kind": draw(kind_of(name)), "name": name, "base": base, "numbered": draw(st.booleans())}
    if what == "chunks":
        case.update(coding=draw(S(["", "gzip", "br", "gzip-name", "gzip-name", "gzip-comment", "gzip-comment", "gzip-both", "gzip-extra", "gzip-stored", "gzip, gzip"])),
                    size=draw(S([1, 30, 1000])), type=draw(S(["", "text/plain; charset=utf-8", "application/json"])), fill=draw(S(["a", "\xe9", "<b>", "\n", "-"])))
    if what == "both":
        case["other"] = draw(S(gen.ALL_FIELDS))
    return case


def many_of(case, n):
    what, name = case["what"], case["name"].encode()
    if what == "chunks":
        size, coding = case["size"], case["coding"]
        n = n // 4 if size == 1000 else n
        fill = case["fill"].encode("latin-1")
        head = b""
        if coding.startswith("gzip-"):
            head = b"\x1f\x8b\x08" + bytes([{"name": 8, "comment": 16, "both": 24, "extra": 4, "stored": 0}[coding[5:]]]) + b"\0\0\0\0\0\xff"
            head += {"both": b"n" * (n * size // 2) + b"\0", "extra": b"\xff\xff"}.get(coding[5:], b"")
        body = head + (fill * (n * size // len(fill) + 1))[:n * size]
        if coding == "gzip-stored":
            body = head + b"".join(b"\0" + len(p).to_bytes(2, "little") + (65535 - len(p)).to_bytes(2, "little") + p for p in (body[i:i + 65535] for i in range(0, len(body), 65535)))
        elif coding == "gzip":
            body = gzip.compress(bytes((i * i >> 3) & 255 for i in range(n * size)) if size < 1000 else body, 1, mtime=0)
        elif coding == "gzip, gzip":
            body = gzip.compress(gzip.compress(body, 0, mtime=0), 0, mtime=0)
        headers = [(b"Content-Type", case["type"].encode())] if case["type"] else []
        if coding:
            headers.append((b"Content-Encoding", coding.split("-")[0].encode()))
        chunks = [body[i:i + size] for i in range(0, len(body), size)]
        return lib.req(headers, method=b"POST", chunks=chunks) if case["kind"] == "request" else lib.resp(headers, chunks=chunks)
    base = case["base"].encode("latin-1", "replace")
    each = [base + (b"%d" % i if case["numbered"] else b"") for i in range(n)]
    if what in ("members", "parameters"):
        return lib.msg(case["kind"], [(name, (b", " if what == "members" else b"; ").join(each))])
    if what == "names":
        return lib.msg(case["kind"], [(name + b"-%d" % i, v) for i, v in enumerate(each)])
    if what == "trailers":
        return lib.msg(case["kind"], [], trailers=[(name, v) for v in each])
    if what == "both":
        return lib.msg(case["kind"], [(name if i % 2 else case["other"].encode(), v) for i, v in enumerate(each)])
    return lib.msg(case["kind"], [(name, v) for v in each])


def timed(m):
    started = time.process_time()
    linter = within(30, "linting", lambda: lib.lint(m))
    within(LIMIT, "rendering what was found", lambda: render(linter))
    return time.process_time() - started


def grows(case, rec):
    few = timed(many_of(case, MANY // TIMES))
    much = timed(many_of(case, MANY))
    rec.label(case["what"])
    rec.nt(len(case["base"]) > 0 or case["what"] == "chunks")
    if much > FLOOR and much > 3 * TIMES * max(few, 0.01):
        raise Violation(f"{TIMES} times as many {case['what']} take {much / max(few, 0.01):.0f} times as long: {few:.2f} s and {much:.2f} s of CPU time")


CHECKS = [
    Check("values", values, check, n=8000, thorough=60000),
    Check("spaced", spaced, check, n=6000, thorough=40000),
    Check("pairs", pairs, check, n=1200, thorough=12000),
    Check("lines", lines, check, n=700, thorough=7000),
    Check("tops", tops, check, n=500, thorough=5000),
    Check("numbers", numbers, grows, n=400, thorough=4000, note="30,000 lines, members, parameters, trailers, names or chunks, against an eighth as many"),
    Check("contents", contents, check, n=900, thorough=9000),
]
