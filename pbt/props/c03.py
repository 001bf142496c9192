"""C03: nothing taken from a message can become markup in a note's detail."""
from html.parser import HTMLParser

from hypothesis import strategies as st

from pbt import gen, lib, pool, scenarios
from pbt.core import Check, require, same
from httplint.note import MarkdownSafe, Note
from httplint.i18n import set_locale

RULE = ("a case is a message with markup payloads planted in it; it is non-trivial when some note's "
        "variables carry (part of) a payload into a rendered detail")
ASSUMPTIONS = ["payloads are recognised by the marker 'zqx', which httplint's own wording never contains"]

# Each payload would, if it were taken as markup, make an element, attribute, link or character reference
PAYLOADS = [
    "<zqxa zqxb=1>", "</code><zqxa>", "*zqxe*", "**zqxe**", "_zqxu_", "`zqxk`", "``zqxk``", "[zqxl](zqxm:n)", "![zqxi](zqxj)", "<zqxh:zqx>", "&lt;zqxg&gt;", "&#60;zqxg&#62;", "&amp;lt;zqxg",
    "\n\n<zqxa>", "\n\n# zqxt", "\n\n- zqxt", "\n\n1. zqxt", "\n\n    zqxt", "\n\n> zqxt", "\n***\nzqxt", '"><zqxa>', "'><zqxa>", "\" onzqx=1 x=\"", "<!--zqxc-->", "<?zqxp?>", "<zqxa@zqx.example>",
    "\\<zqxa>", "\\`zqxk\\`", "\ue000zqx0\ue001", "[zqxr]: zqxm:n", "[zqxl][zqxr]", "zqx-->", "<zqxa\n>", "\x02zqx\x03", "\x02klzzwxh:0000\x03zqx", "&zqxn;", "zqx\n===", "zqx\n---", "%3Czqxa%3E", "%0A%0A<zqxa>", "\\u003czqxa\\u003e", "\\n\\n<zqxa>",
    "zqx|zqx\n-|-", "~~~zqx\n", "```zqx\n",
]
TOKENISH = ["*zqxe*", "**zqxe**", "_zqxu_", "`zqxk`", "``zqxk``", "&zqxn", "zqx`", "!zqx", "#zqx", "~~~zqx", "+zqx", "-zqx", "*zqx", "zqx*", "'zqx", "^zqx^", "zqx&", "__zqxu__"]
BLOCKS = {"p", "ul", "ol", "li", "code", "pre", "em", "strong", "a", "br", "h1", "h2", "h3", "blockquote", "hr"}


class Shape(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.events, self.tags, self.attrs, self.spans, self.text, self.stack, self.odd = [], [], [], [], [], [], []

    def handle_starttag(self, tag, attrs):
        self.events.append(("<", tag, tuple(sorted(a for a, _ in attrs))))
        self.tags.append(tag)
        self.attrs.extend((tag, a, v or "") for a, v in attrs)
        self.stack.append(tag)

    def handle_endtag(self, tag):
        self.events.append((">", tag))
        if tag in self.stack:
            while self.stack and self.stack.pop() != tag:
                pass

    def handle_data(self, data):
        self.text.append(data)
        if self.stack:
            self.spans.append((tuple(self.stack), data))

    def handle_comment(self, data):
        self.odd.append(("comment", data))

    def handle_decl(self, decl):
        self.odd.append(("decl", decl))

    def handle_pi(self, data):
        self.odd.append(("pi", data))

    def unknown_decl(self, data):
        self.odd.append(("unknown", data))


def shape(html):
    p = Shape()
    p.feed(str(html))
    p.close()
    return p


def inspect(note, rec):
    cls = type(note).__name__
    html = str(note.detail)
    got = shape(html)
    for tag in got.tags:
        require(tag in BLOCKS, "%s's detail has an element <%s>: %r", cls, tag, html)
    require(not got.odd, "%s's detail has a comment, declaration or processing instruction: %r in %r", cls, got.odd, html)
    for tag, attr, value in got.attrs:
        require(tag == "a" and attr in ("href", "title"), "%s's detail has <%s %s=%r>: %r", cls, tag, attr, value, html)
        low = value.strip().lower()
        require("zqx" not in low[:12] and low.split(":")[0] in ("http", "https"), "%s's detail links to %r: %r", cls, value, html)
    for stack, data in got.spans:
        if "zqx" in data:
            # emphasis wrapped around the library's own code span is the library's
            seen = set(stack) - ({"em", "strong"} if stack[-1] == "code" and "pre" not in stack else set())
            require(not {"em", "strong", "a", "h1", "h2", "h3", "blockquote"} & seen or own_markup(note, stack), "%s's detail has message text %r inside <%s>: %r", cls, data, stack[-1], html)
    text = "".join(got.text)
    rec.nt("zqx" in text)
    # the same note with harmless values has the same structure
    harmless = {}
    for key, val in note.vars.items():
        harmless[key] = val if isinstance(val, MarkdownSafe) else "w"
    twin = type(note)(note.subject, **harmless)
    same(got.events, shape(twin.detail).events, f"structure of {cls}'s detail {html!r} against harmless values")
    # and values are shown as they are: interpolated plain values appear literally
    for key, val in note.vars.items():
        # (a parser's message is never markup, whoever says it is)
        if (not isinstance(val, MarkdownSafe) or key == "problem") and f"%({key})s" in translate_text(note) and ("zqx" in str(val) or key == "problem"):
            require(flat(str(val)) in flat(text) or any(flat(str(val)) in flat(v) for _, _, v in got.attrs), "%s's detail doesn't show its %s %r as is: %r", cls, key, str(val), html)
            rec.label("value shown")


def flat(text):
    return "".join(text.split())


def translate_text(note):
    from httplint.i18n import translate
    return translate(note._text)  # pylint: disable=protected-access


def own_markup(note, stack):
    """Does the note's own wording put (some) text in these elements?"""
    marks = {k: (v if isinstance(v, MarkdownSafe) else "zqxown") for k, v in note.vars.items()}
    for s, data in shape(type(note)(note.subject, **{k: ("zqxown" if not isinstance(v, MarkdownSafe) else plainer(v)) for k, v in marks.items()}).detail).spans:
        if "zqx" in data and set(stack) & {"em", "strong", "a", "h1", "h2", "h3", "blockquote", "pre"} <= set(s):
            return True
    return False


def plainer(value):
    """A pre-composed value with message data made harmless (keeping the library's own structure)."""
    out = []
    for ch in str(value):
        out.append(ch)
    text = "".join(out)
    for p in sorted(PAYLOADS + TOKENISH, key=len, reverse=True):
        text = text.replace(p, "zqx")
    return MarkdownSafe(text)


def check(case, rec):
    linter = lib.lint(case["m"])
    with set_locale(case["locale"]):
        for note in lib.all_notes(linter.notes):
            inspect(note, rec)
            rec.label(type(note).__name__) if any("zqx" in str(v) for v in note.vars.values()) else None


@st.composite
def poisoned_value(draw, name, value=None):
    """A field value with payloads spliced in, or built around them."""
    value = (draw(gen.field_value(name)) if value is None else value).decode("latin-1")[:300]
    pay = st.one_of(st.sampled_from(PAYLOADS), st.sampled_from(TOKENISH))
    for _ in range(draw(st.integers(1, 2))):
        p = draw(pay)
        how = draw(st.integers(0, 6))
        if how == 0:
            i = draw(st.integers(0, len(value)))
            value = value[:i] + p + value[i:]
        elif how == 1:
            # replace one word by the payload
            import re
            words = list(re.finditer(r"[^\s,;=\"()]+", value))
            if words:
                w = words[draw(st.integers(0, len(words) - 1))]
                value = value[:w.start()] + p + value[w.end():]
        elif how == 2:
            quoted = p.replace("\\", "\\\\").replace('"', '\\"')
            value = value + draw(st.sampled_from([", ", "; ", "=", " ", ";", ""])) + f'"{quoted}"'
        elif how == 3:
            value = draw(st.sampled_from(["{v}; {t}={p}", "{v}, {p}", "{t}={p}", "{t}=\"{p}\"", "{v};{p}=1", "{p};a=b", "{p} realm={p}", "{p}=1", "<{p}>; rel={t}", "{{\"report_to\":\"{p}\",\"max_age\":1}}", "{{\"group\":\"{p}\",\"max_age\":\"{p}\",\"endpoints\":[{{\"url\":\"{p}\"}}]}}",
                                          "default-src {p}; {p} 'self'", "{t}*=utf-8''{p}", "{t};q={p}", "{p}/{p}", "{p}/{p};charset={p}", "'{p}'", "{p};report-to=\"{p}\"", "{t}=({p} \"{p}\")", "bytes {p}", "{p}: {p}", "max-age={p}", "\"{p}\";{t}"])).format(v=value, p=p, t=draw(gen.TOKENS))
        elif how == 4:
            value = p
        elif how == 5:
            import re
            value = re.sub(r'"[^"]*"', lambda m: '"' + p.replace("\\", "\\\\").replace('"', '\\"') + '"', value, count=1)
        else:
            value = value + p
    return value.encode("latin-1", "replace")


@st.composite
def poisoned(draw):
    kind = draw(st.sampled_from(["request", "response", "response"]))
    how = draw(st.integers(0, 9))
    if how < 6:
        pool = gen.REQ_FIELDS if kind == "request" else gen.RESP_FIELDS
        names = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=2))
        hs = [(n.encode(), draw(poisoned_value(n))) for n in names for _ in range(draw(st.integers(1, 2)))]
        m = lib.msg(kind, hs, base="https://example.com/x")
    elif how < 8:
        m = draw(scenarios.scenario())
        hs = []
        for n, v in m["headers"]:
            if draw(st.integers(0, 2)) == 0 and gen.CORPUS.get(n.decode("latin-1")):
                v = draw(poisoned_value(n.decode("latin-1")))
            hs.append((n, v))
        m = dict(m, headers=hs)
    else:
        p = draw(st.sampled_from(PAYLOADS + TOKENISH)).encode("latin-1", "replace")
        q = draw(st.sampled_from(PAYLOADS + TOKENISH)).encode("latin-1", "replace")
        if kind == "request":
            m = lib.msg(kind, draw(st.sampled_from([[(p, q)], [(b"Foo" + p, b"x")], [(b"Connection", p)]])), top=(draw(st.sampled_from([p, b"GET"])), draw(st.sampled_from([p, b"http://example.com/" + p])), b"HTTP/1.1"), chunks=[b"x"] if draw(st.booleans()) else [])
        else:
            m = lib.msg(kind, draw(st.sampled_from([[(p, q)], [(b"Content-Encoding", b"gzip")], [(b"Content-Encoding", b"br")], [(b"Content-Type", b"text/html; charset=\"" + p + b"\"")], [(b"Content-Type", p)]])),
                        top=(draw(st.sampled_from([p, b"HTTP/1.1"])), draw(st.sampled_from([p, b"200", b"404"])), p), chunks=[p + b"\xff" + q * 3])
    if draw(st.integers(0, 9)) == 0:
        m["trailers"], m["headers"] = m["headers"], []
    return {"m": m, "locale": draw(st.sampled_from(["en", "en", "en", "es", "fr", "ja", "zh"]))}


@st.composite
def faulty(draw):
    m = dict(draw(pool.messages()))
    for key in ("headers", "trailers"):
        hs = m.get(key)
        if hs:
            at = draw(st.sets(st.integers(0, len(hs) - 1), max_size=2, min_size=1))
            m[key] = [(n, draw(poisoned_value("Foo", v)) if i in at else v) for i, (n, v) in enumerate(hs)]
    return {"m": m, "locale": draw(st.sampled_from(["en", "en", "en", "es", "fr", "ja", "zh"]))}


CHECKS = [
    Check("poisoned", poisoned, check, n=30000, note="HTML structure of each detail against the same note with harmless values, an element/attribute whitelist and payload markers"),
    Check("faulty", faulty, check, n=6000, note="messages like those of the other properties' checks, with payloads"),
]
