"""C25: media types, parameters and extended parameters."""
import collections
import re
from urllib.parse import quote

from hypothesis import strategies as st

from pbt import gen, lib
from pbt.core import Check, same

RULE = "a case is a message with a field that takes parameters, written token, quoted or extended; non-trivial when some parameter is quoted, extended or repeated"
ASSUMPTIONS = ["parameters are well-formed (a name, '=', and a token or quoted string); the syntax of the whole field is C10's", "a parameter that yields no value (a bad extended one) doesn't count towards repetition",
               "extended values are UTF-8 sequences, other charsets, or lack a part; invalid percent-encoding isn't judged"]
S = st.sampled_from
TOKEN = gen.TCHAR
QD = "\t !" + "".join(map(chr, range(0x23, 0x5c))) + "".join(map(chr, range(0x5d, 0x7f))) + "".join(map(chr, range(0x80, 0x100)))
ANY = QD + '"\\'
NOSTAR = {"Content-Type": {"charset"}, "Content-Disposition": set(), "Link": {"rel", "rev", "anchor", "hreflang", "type", "media"}, "Accept": {"q"}, "Accept-Patch": set(), "Accept-Post": set(),
          "Server-Timing": {"desc"}, "TE": {"q"}, "Transfer-Encoding": True, "Accept-Encoding": {"q"}}
SINGLE = {"Content-Type", "Content-Disposition"}
REQUEST = {"Accept", "TE", "Accept-Encoding"}
WORDS = {"Content-Type": ["charset", "boundary", "q"], "Content-Disposition": ["filename", "filename", "creation-date"], "Link": ["title", "rel2", "hreflang", "media", "as", "anchor2", "type2"], "Accept": ["level", "charset", "ext"],
         "Accept-Patch": ["charset", "q"], "Accept-Post": ["charset"], "Server-Timing": ["dur", "desc", "dur"], "TE": ["a", "q"], "Transfer-Encoding": ["a", "level"], "Accept-Encoding": ["a", "q"]}
CLASSES = re.compile(r"PARAM_|MEDIA_TYPE_|DISPOSITION_|SERVER_TIMING_|TRANSFER_CODING_PARAM|ACCEPT_BAD_SYNTAX|ACCEPT_PATCH_BAD_SYNTAX|ACCEPT_POST_BAD_SYNTAX")


def quoted(draw, value):
    out = ""
    for c in value:
        out += "\\" + c if c in '"\\' or draw(st.integers(0, 7)) == 0 else c
    return '"' + out + '"'


@st.composite
def param(draw, field):
    """(name as written, text after '=', what it means)"""
    name = draw(st.one_of(S(WORDS[field]), S(WORDS[field]), S(["a", "b", "foo", "x-y", "f'", "q2"])))
    name = gen._case(name, draw(st.integers(0, 3)))
    how = draw(S(["token", "token", "quoted", "quoted", "single", "ext", "ext", "badext"]))
    if how == "token":
        v = draw(st.one_of(st.text(TOKEN, min_size=1, max_size=6), S(["utf-8", "1", "0.5", "53.2", "1_0", "nan", "inf", "-1", "+1", "1e3", "1e", ".5", "5.", "*", "%41", "foo.txt", "100%"])))
        return name, v, ("plain", v, v)
    if how == "quoted":
        v = draw(st.one_of(st.text(ANY, max_size=6), S(["a;b", "a,b", "a=b", ";", ",", "", '"', "\\", "a/b", "c:\\d", "53.2", "'x'", "x; y=z", "a, b;c=d", "=", "/", "*", "%20", "\u00e9", " 1 "])))
        q = quoted(draw, v)
        return name, q, ("plain", v, q)
    if how == "single":
        v = "'" + draw(S(["utf-8", "a", "1", "*"])) + "'"
        return name, v, ("plain", v, v)
    text = draw(st.one_of(st.text("aZ09-_.é€ /\\;,\"'%~\U0001f600\x01", max_size=5), S(["a/b", "a\\b", "x", "naïve", "100%", "%41b"])))
    lang = draw(S(["", "", "en", "de-CH", "EN"]))
    charset = draw(S(["UTF-8", "UTF-8", "utf-8", "Utf-8", "", "ISO-8859-1", "us-ascii", "utf8"]))
    body = quote(text, safe=draw(S(["", "!#$&+^`|"])))
    if draw(st.booleans()):
        body = re.sub("%..", lambda m: m.group(0).lower(), body)
    if how == "badext":
        v = draw(S(["UTF-8'en", "UTF-8", "a", "UTF-8''a'b", "'", "UTF-8'''"]))
        return name + "*", v, ("badext", None, v)
    v = f"{charset}'{lang}'{body}"
    if draw(st.integers(0, 5)) == 0:
        return name + "*", f'"{v}"', ("ext", (charset.lower(), text), '"')
    return name + "*", v, ("ext", (charset.lower(), text), v)


SEP = S([";", "; ", " ; ", " ;", ";\t", "; ; "])
NAME = st.one_of(S(["text", "application", "html", "json", "vnd.example.foo+json", "x-1", "a", "*", "image"]), S(["~a", ".a", "a*b", "-a", "a~b", "a'b", "_x", "A!#$&^_.+-", "1a", "%", "a|b", "+x", "Z" * 127, "z" * 128, "y" * 200]),
                 st.text(TOKEN, min_size=1, max_size=5))


@st.composite
def member(draw, field):
    ps = draw(st.lists(param(field), max_size=4))
    if field in ("Content-Type", "Accept", "Accept-Patch", "Accept-Post"):
        how = draw(st.integers(0, 11))
        head = draw(NAME) + "/" + draw(NAME)
        if how == 0:
            head = draw(S(["*/*", "text/*", "*/html", "*/*", "text", "*", "*/", "/html", "/", "a/b/c", "a//b", "text/*/"]))
        elif how == 1:
            # one that isn't a token, which the field's grammar is for
            two = [draw(S(["te xt", "t@x", "t[", "<t>", "h(l", "{x}", "@"])), draw(NAME)]
            head = "/".join(two if draw(st.booleans()) else two[::-1])
        elif how < 6:
            head = draw(S(["text/html", "Text/HTML", "application/json", "image/svg+xml"]))
    elif field == "Content-Disposition":
        head = draw(S(["attachment", "inline", "Attachment", "INLINE", "form-data", "x", "attachmentx", "in-line"]))
    elif field == "Link":
        head = "<" + draw(S(["/x", "http://a.example/b", "", "?q", "/a;b=c", "/a,b", "/'", '/"x'])) + ">"
    elif field == "Server-Timing":
        head = draw(S(["db", "Cache", "a", "x-y"]))
    else:
        head = draw(S(["gzip", "chunked", "BR", "trailers", "x"]))
    if field == "Transfer-Encoding" and head == "chunked":
        ps = [] if draw(st.booleans()) else ps
    text = head
    for name, v, _ in ps:
        text += draw(SEP) + name + "=" + v
    text += draw(S(["", "", "", ";", " ;"]))
    return text, (head, [(n, m) for n, _, m in ps])


@st.composite
def cases(draw, field=None):
    field = field or draw(S(sorted(NOSTAR) + ["Content-Disposition"]))
    ms = [draw(member(field)) for _ in range(1 if field in SINGLE else draw(st.integers(1, 3)))]
    name = gen._case(field, draw(st.integers(0, 3))).encode()
    return field, name, draw(S([", ", ",", " ,\t", ",, "])).join(m[0] for m in ms), [m[1] for m in ms]


def params(field, ps):
    """(dictionary, [(note, parameter, detail)])"""
    d, notes = {}, []
    nostar = NOSTAR[field]
    for name, (kind, v, raw) in ps:
        key = name.lower()
        if key in d:
            notes.append(("PARAM_REPEATS", key, None))
        if raw[0] == raw[-1] == "'":
            notes.append(("PARAM_SINGLE_QUOTED", key, raw[1:-1]))
        if not key.endswith("*"):
            d[key] = v
            continue
        if nostar is True or key[:-1] in nostar:
            notes.append(("PARAM_STAR_BAD", key[:-1], None))
            continue
        if raw == '"':
            notes.append(("PARAM_STAR_QUOTED", key, None))
        if kind == "badext":
            notes.append(("PARAM_STAR_ERROR", key, None))
        elif v[0] == "":
            notes.append(("PARAM_STAR_NOCHARSET", key, None))
        elif v[0] != "utf-8":
            notes.append(("PARAM_STAR_CHARSET", key, v[0]))
        else:
            d[key] = v[1]
    return d, notes


def media_type(mt, wildcard):
    """The findings about the name of a media type or range, but for a value that isn't shaped like one (True)."""
    parts = mt.split("/")
    if len(parts) != 2 or not all(parts) or ("*" in parts and (not wildcard or (parts[0] == "*" and parts[1] != "*"))):
        return True
    names = [p for p in parts if p != "*" and not set(p) & set(" @[<>({}")]
    notes = []
    if any(len(p) > 127 for p in names):
        notes.append(("MEDIA_TYPE_LONG_NAME", mt, None))
    if any(p[0] not in "abcdefghijklmnopqrstuvwxyz0123456789" or set(p) - set("abcdefghijklmnopqrstuvwxyz0123456789!#$&-^_.+") for p in names):
        notes.append(("MEDIA_TYPE_BAD_NAME", mt, None))
    return notes


def number(v):
    return re.fullmatch(r"[ \t]*[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?[ \t]*", v) is not None


def model(field, ms):
    values, notes = [], []
    for head, ps in ms:
        low = head if field in ("Link", "Server-Timing") else head.lower()
        if field == "Link":
            low = head[1:-1]
        d, ns = params(field, ps)
        if field in ("Content-Type", "Accept", "Accept-Patch", "Accept-Post"):
            verdict = media_type(low, field in ("Accept", "Accept-Post"))
            if verdict is True:
                if field != "Content-Type":
                    notes.append((field.upper().replace("-", "_") + "_BAD_SYNTAX", low, None))
            else:
                notes += verdict
        elif field == "Content-Disposition":
            if low not in ("inline", "attachment"):
                notes.append(("DISPOSITION_UNKNOWN", low, None))
            if low == "attachment" and "filename" not in d:
                notes.append(("DISPOSITION_OMITS_FILENAME", None, None))
            if "%" in d.get("filename", ""):
                notes.append(("DISPOSITION_FILENAME_PERCENT", None, None))
            if any(c in d.get(k, "") for k in ("filename", "filename*") for c in "/\\"):
                notes.append(("DISPOSITION_FILENAME_PATH_CHAR", None, None))
        elif field == "Server-Timing":
            if "dur" not in d:
                notes.append(("SERVER_TIMING_MISSING_DUR", head, None))
            elif not number(d["dur"]):
                notes.append(("SERVER_TIMING_BAD_PARAM", head, d["dur"]))
            if "desc" not in d:
                notes.append(("SERVER_TIMING_MISSING_DESC", head, None))
        elif field == "Transfer-Encoding" and d:
            notes.append(("TRANSFER_CODING_PARAM", None, None))
        values.append((low, d))
        notes += ns
    return values, notes


WHO = {"PARAM_": ("param", None), "PARAM_SINGLE_QUOTED": ("param", "param_val_unquoted"), "PARAM_STAR_CHARSET": ("param", "enc"), "MEDIA_TYPE_": ("value", None), "DISPOSITION_UNKNOWN": ("disposition", None),
       "SERVER_TIMING_": ("metric", None), "SERVER_TIMING_BAD_PARAM": ("metric", "value"), "ACCEPT_": ("value", None)}


def check(case, rec):
    field, name, text, ms = case
    hs = [(name, text.encode("latin-1"))]
    linter = lib.lint(lib.req(hs) if field in REQUEST else lib.resp(hs))
    values, want = model(field, ms)
    got = []
    for n in lib.all_notes(linter.notes):
        cls = type(n).__name__
        if CLASSES.match(cls) and "field-" + field.lower() == n.subject or (n.subject == "offset-0" and CLASSES.match(cls)):
            who, what = next((v for k, v in sorted(WHO.items(), reverse=True) if cls.startswith(k)), (None, None))
            got.append((cls, str(n.vars[who]) if who else None, str(n.vars[what]) if what else None))
            same(n.vars["field_name"], field, f"field named by {cls}")
    same(collections.Counter(got), collections.Counter(want), f"findings for {field}: {text!r}")
    v = linter.headers.parsed[field.lower()]
    got_values = [v] if field in SINGLE else v
    if field == "Accept":
        q = [d.pop("q", None) for _, d in values]
        got_values = [(a.media_type, a.parameters) for a in v]
        for a, x in zip(v, q):
            same(a.q, float(x) if x is not None and re.fullmatch(r"0(\.\d{0,3})?|1(\.0{0,3})?", x) else None, f"q in {text!r}")
    same(lib.plain(list(got_values)), lib.plain(values), f"value of {field}: {text!r}")
    kinds = {m[1][0] if m[1][0] != "plain" else ("quoted" if m[1][2][:1] == '"' else "token") for _, ps in ms for m in ps}
    rec.nt(bool(kinds - {"token"}) or any(n[0] == "PARAM_REPEATS" for n in want))
    rec.label(field, *kinds, *{n[0] for n in want})


def check_forms(case, rec):
    """Every way of writing a value means the same."""
    field, head, key, value, forms = case
    results = []
    for name, v in forms:
        hs = [(field.encode(), (head + "; " + name + "=" + v).encode("latin-1"))]
        linter = lib.lint(lib.req(hs) if field in REQUEST else lib.resp(hs))
        v = linter.headers.parsed[field.lower()]
        v = v if field in SINGLE else v[0]
        results.append((lib.plain(v), sorted(lib.names(linter))))
    for r in results[1:]:
        same(r, results[0], f"{field} with the forms {forms!r}")
    rec.nt(any(v[0] == '"' and "\\" in v for _, v in forms))
    rec.label(field)


@st.composite
def forms(draw):
    field, head = draw(S([("Content-Type", "text/html"), ("Content-Disposition", "attachment"), ("Link", "</x>"), ("Accept", "text/html"), ("Accept-Post", "*/*"), ("Server-Timing", "db")]))
    key = draw(S(WORDS[field] + ["q", "rel", "type", "anchor"]))
    value = draw(st.one_of(st.text(TOKEN.replace("'", ""), min_size=1, max_size=6), S(["0.5", "utf-8", "preload", "text/html".replace("/", ""), "1"])))
    out = [(key, value)]
    for _ in range(3):
        out.append((gen._case(key, draw(st.integers(0, 3))), draw(S([value, None])) or quoted(draw, value)))
    return field, head, key, value, out


CHECKS = [
    Check("parameters", cases, check, n=12000, note="reference parser and reports for media types, dispositions, links, timings and codings with parameters"),
    Check("forms", forms, check_forms, n=3000, note="token, quoted and escaped forms in any case give the same value and findings"),
]
