"""C23: the command line reports exactly what the library finds."""
import collections
import io
import os
import re
import subprocess
import sys
import time
import unittest.mock

from hypothesis import strategies as st

import httplint
from httplint.cli import main
from httplint.i18n import set_locale, translate
from pbt import gen, lib
from pbt.core import REPO, Check, Skip, require, same

RULE = "a case is one complete message as it is on the wire, with command-line options; non-trivial when it has a body or trailers, an option is used, or it gives notes in three categories or with subnotes"
ASSUMPTIONS = ["messages are well-formed HTTP/1.x (or have a status line like that of tools that print HTTP/2 this way) as the parser (thor) sees it: CRLF line endings, field names that are tokens, values without CR, LF and NUL, no conflicting framing, at most 131072 bytes of fields",
               "bodies that sniffpy prints about (WebM signatures) are left out", "the order of notes within a category isn't judged", "with -n, dates are far enough from now for their wording to hold for the second the run takes"]
S = st.sampled_from
TOKEN = re.compile(rb"[!#$%&'*+\-.^_`|~0-9A-Za-z]+\Z")
LOCALES = sorted(d for d in os.listdir(os.path.join(os.path.dirname(httplint.__file__), "translations")) if os.path.isdir(os.path.join(os.path.dirname(httplint.__file__), "translations", d)))
LINE = re.compile(r"(  )?\* \[([A-Z]+)\] (.*)\Z", re.S)


def http_date(t):
    return time.strftime("%a, %d %b %Y %H:%M:%S GMT", time.gmtime(t)).encode()


def usable(fields):
    return [(n, v) for n, v in fields if TOKEN.match(n) and not set(v) & {0, 10, 13} and n.lower() not in (b"content-length", b"transfer-encoding")]


@st.composite
def wire(draw, sub=False):
    kind = draw(S(["response", "response", "request"]))
    fields = usable(draw(st.one_of(gen.headers(kind), gen.family_headers(kind))))
    now = draw(st.integers(0, 4)) == 4
    if now:
        for name in draw(st.lists(S([b"Date", b"Expires", b"Last-Modified", b"Sunset"]), unique=True, max_size=3)):
            fields.append((name, ("now", draw(S([-864000 - 43200, 864000 + 43200, -5 * 31536000, 45 * 86400, 0, -9000, 9000])))))
        if draw(st.booleans()):
            fields.append((b"Age", b" 600"))
        fields.append((b"Cache-Control", b"max-age=1000000"))
    body = draw(st.one_of(st.just(b""), gen.bodies()))
    if isinstance(body, tuple):
        body = body[-1]
    if b"\x1a\x45\xdf\xa3" in body[:64]:
        body = b""
    framing = draw(S(["length", "chunked", "close"] if kind == "response" else ["length", "chunked", "none"]))
    c = {"kind": kind, "framing": framing, "trailers": [], "now": now, "locale": draw(S([None, None, None] + LOCALES + ["xx", "en", "de", "fr_FR", "fr-FR", "C", "x"])), "interim": kind == "response" and draw(st.integers(0, 7)) == 7,
         "extra": draw(S([b""] * 6 + [b"HTTP/1.1 200 OK\r\nX: y\r\n\r\n", b"\r\n", b"junk \xff"])), "explicit": draw(st.booleans()), "split": draw(S([1, 2, 3]))}
    if kind == "response":
        status = draw(st.one_of(S([200, 200, 200, 404, 206, 301, 204, 304, 500, 599, 207]), st.integers(200, 599)))
        phrase = draw(S([b" OK", b" OK", b"", b" ", b" Not \xe9 ok", b" a b c"]))
        c["top"] = (draw(S([b"HTTP/1.1", b"HTTP/1.1", b"HTTP/1.0", b"HTTP/2"])), str(status).encode(), phrase)
        if status in (204, 304):
            framing = c["framing"] = "none"
    else:
        c["top"] = (draw(S([b"GET", b"POST", b"PUT", b"FOO", b"HEAD", b"OPTIONS"])), draw(S([b"https://example.com/", b"http://example.com/a?b#c", b"/", b"*", b"http://ex\xc3\xa4mple.com/", b"http://a/\xff", b"http://a/" + b"x" * 8100, b"/a b", b"https://example.com/a  b HTTP/1.1", b"https://example.com/a\tb|c%zz", b"http://a/ " + b"x" * 8100])), draw(S([b"HTTP/1.1", b"HTTP/1.0"])))
    if framing == "none":
        body = b""
    chunks = [body] if body else []
    if framing == "length":
        if kind == "request" and not body:
            c["framing"] = draw(S(["none", "length"]))
        if c["framing"] == "length":
            fields.insert(draw(st.integers(0, len(fields))), (draw(S([b"Content-Length", b"content-length"])), b" %d" % len(body)))
    elif framing == "chunked":
        fields.insert(draw(st.integers(0, len(fields))), (b"Transfer-Encoding", draw(S([b" chunked", b" Chunked", b" gzip, chunked"]))))
        chunks = [x for x in draw(gen.split(body)) if x] if body else []
        c["ext"] = [draw(S([b"", b"", b";a", b";a=b", b' ; a="b"'])) for _ in range(len(chunks) + 1)]
        c["sizes"] = [draw(S([b"%x", b"%X", b"0%x", b"000%X"])) for _ in chunks]
        if draw(st.booleans()):
            c["trailers"] = usable(draw(gen.headers(kind, max_size=4)))
    elif framing == "close" and draw(st.integers(0, 4)) == 4:
        fields.append((b"Transfer-Encoding", b" gzip"))
    c["fields"], c["chunks"] = fields, chunks
    return c


def lines(fields):
    return b"".join(n + b":" + v + b"\r\n" for n, v in fields)


def render(c, fields):
    top = b" ".join(c["top"]) if c["kind"] == "request" else c["top"][0] + b" " + c["top"][1] + c["top"][2]
    out = (b"HTTP/1.1 103 Early Hints\r\nLink: </a>; rel=preload\r\n\r\n" if c["interim"] else b"") + top + b"\r\n" + lines(fields) + b"\r\n"
    if c["framing"] == "chunked":
        for i, x in enumerate(c["chunks"]):
            out += c["sizes"][i] % len(x) + c["ext"][i] + b"\r\n" + x + b"\r\n"
        out += b"0" + c["ext"][-1] + b"\r\n" + lines(c["trailers"]) + b"\r\n"
    else:
        out += b"".join(c["chunks"])
    return out + (c["extra"] if c["framing"] != "close" else b"")


def expected(c, fields, start):
    """Counter of (category title, level, summary, ((level, summary), ...)), as the library has them."""
    top = c["top"] if c["kind"] == "request" else (c["top"][0], c["top"][1], c["top"][2].strip())
    m = lib.msg(c["kind"], fields, top=top, chunks=c["chunks"], trailers=c["trailers"])
    if start is not None:
        m["start"] = start
    with set_locale(c["locale"]):
        linter = lib.lint(m)
        return collections.Counter((translate(n.category.value), n.level.name, n.summary, tuple((s.level.name, s.summary) for s in n.subnotes)) for n in linter.notes), linter


def parse(text):
    """The same, from what was printed."""
    found = collections.Counter()
    titles, title, item = [], None, None

    def done():
        nonlocal item
        if item:
            found[(item[0], item[1], item[2], tuple(item[3]))] += 1
        item = None
    for line in text.split("\n"):
        m = LINE.match(line)
        if line.startswith("### "):
            done()
            title = line[4:]
            titles.append(title)
        elif m and not m.group(1):
            done()
            require(title is not None, "a note is printed outside any category: %r", line)
            item = (title, m.group(2), m.group(3), [])
        elif m:
            require(item is not None, "a subnote is printed without a note: %r", line)
            item[3].append((m.group(2), m.group(3)))
        elif line == "":
            done()
        else:
            require(False, "a line that isn't a category, note or subnote is printed: %r", line)
    done()
    return found, titles


class Stdin:
    def __init__(self, data):
        self.buffer = io.BytesIO(data)


def run_here(args, data):
    out, err = io.StringIO(), io.StringIO()
    code = 0
    with unittest.mock.patch.multiple(sys, argv=["httplint"] + args, stdin=Stdin(data), stdout=out, stderr=err):
        try:
            main()
        except SystemExit as e:
            code = e.code or 0
    return code, out.getvalue(), err.getvalue()


def run_process(args, data):
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONIOENCODING="utf-8", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-c", "from httplint.cli import main; main()"] + args, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120, check=False)
    return p.returncode, p.stdout.decode("utf-8"), p.stderr.decode("utf-8", "replace")


def check(c, rec, run=run_here):
    now = time.time()
    fields = [(n, b" " + http_date(int(now) + v[1]) if isinstance(v, tuple) else v) for n, v in c["fields"]]
    data = render(c, fields)
    if sum(len(n) + len(v) + 4 for n, v in fields) > 120000 or any(len(x) > 120000 for x in (lines(c["trailers"]),)):
        raise Skip
    args = [] if c["kind"] == "response" and not c["explicit"] else ["-i", c["kind"]] if c["explicit"] else ["--input", c["kind"]]
    args += (["-n"] if c["explicit"] else ["--now"]) if c["now"] else []
    args += (["-l", c["locale"]] if c["explicit"] else ["--locale", c["locale"]]) if c["locale"] else []
    try:
        want, linter = expected(c, fields, now if c["now"] else None)
    except LookupError:
        raise Skip
    code, out, err = run(args, data)
    if c["now"]:
        again, _ = expected(c, fields, time.time())
        if again != want:
            raise Skip
    rec.label(c["framing"])
    rec.label(c["kind"])
    if c["locale"]:
        rec.label("locale")
    if c["now"]:
        rec.label("now")
    rec.nt(bool(c["chunks"]) or bool(c["trailers"]) or bool(args[2:]) or len({k[0] for k in want}) > 2 or any(k[3] for k in want))
    same(code, 0, "the command line must exit successfully", stderr=err[-300:])
    same(err, "", "something is written to standard error")
    found, titles = parse(out)
    missing, extra = want - found, found - want
    require(not missing and not extra, "the command line doesn't print what the library finds: missing %s, extra %s", list(missing.items())[:3], list(extra.items())[:3])
    same(len(titles), len(set(titles)), "a category is printed twice", titles=titles)
    same(set(titles), {k[0] for k in want}, "categories without notes are printed")


def check_process(c, rec):
    check(c, rec, run_process)


CHECKS = [
    Check("in process", wire, check, 1200, 20000, "main() with standard input and output replaced, against the library called directly"),
    Check("process", wire, check_process, 40, 400, "the same, as a process of its own"),
]
