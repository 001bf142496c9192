"""C37: links and resource hints, alternative services, intermediaries, age, and the start line."""
import re

from hypothesis import strategies as st

from pbt import lib
from pbt.core import Check, require, same
from pbt.lib import all_notes
from pbt.props.c34 import cased, header, spread

RULE = "a case is a message with one of these fields (or a start line); non-trivial when it has several members, parameters, a hint, or something to report"
ASSUMPTIONS = ["link targets are in angle brackets, and parameters have values and aren't repeated", "a resource hint is a rel of preload, preconnect or dns-prefetch, in any case, among other relation types; its target's scheme is that of the target resolved against the base URI, if known",
               "members are spread over lines at will"]
S = st.sampled_from
HINTS = ["preload", "preconnect", "dns-prefetch"]
TARGETS = ["/a", "https://e.example/x", "http://e.example/", "HTTPS://e.example", "data:text/plain,x", "mailto:a@b", "ftp://e.example/", "", "a,b", "https://e.example/a;b=c,d", "//e.example/x", "?q=1,2", "FTP://x/", "ws://e.example/", "javascript:x", "httpsx:y",
           "/a'b", "https:/x", "blob:https://e.example/1"]
BASES = [None, None, "https://base.example/a/b", "http://base.example/", "ftp://base.example/"]
RELS = ["preload", "preconnect", "dns-prefetch", "next", "stylesheet", "Preload", "PRECONNECT", "dns-Prefetch", "prefetch", "preload2", "https://e.example/preload"]
TYPES = ["text/html", "Text/HTML", "image/svg+xml", "text/html; charset=utf-8", "text", "text/", "/html", "te xt/html", "text/html/x", 'text/html; a="b"', "*/*", "text/html;", "a/b c"]
ANCHORS = ["/x", "https://e.example/", "#frag", "", "x y", "a%zz", "http://[::1]/", "http://[", "//x", "a:b", "1:b", "<x>", "?q", "x|y", "../x"]
BADANCHOR = {"x y", "a%zz", "http://[", "1:b", "<x>", "x|y"}
BADTYPE = {"text", "text/", "/html", "te xt/html", "text/html/x", "a/b c"}
TEXTS = ["a", "a b", "a,b", "a;b", "a=b", "\xe9", "`x`", "<b>"]


def scheme_of(target, base):
    m = re.match("([A-Za-z][A-Za-z0-9+.-]*):", target)
    if m:
        return m.group(1).lower()
    return base.partition(":")[0].lower() if base else ""


def quote(text):
    return '"' + text.replace("\\", "\\\\").replace('"', '\\"') + '"'


@st.composite
def links(draw):
    members, texts = [], []
    for _ in range(draw(st.integers(1, 5))):
        target = draw(S(TARGETS))
        params = []
        for name in draw(st.lists(S(["rel", "rel", "rev", "anchor", "type", "title", "as", "media", "hreflang", "crossorigin"]), unique=True, max_size=4)):
            if name in ("rel", "rev"):
                value = draw(S([" ", "  "])).join(draw(st.lists(S(RELS), min_size=1, max_size=3)))
            else:
                value = draw(S(TYPES if name == "type" else ANCHORS if name == "anchor" else TEXTS))
            params.append((name, value))
        text = f"<{target}>"
        for k, v in params:
            token = re.fullmatch(r"[!#$%&*+.^_`|~0-9A-Za-z-]+", v)
            text += draw(S([";", "; ", " ; "])) + cased(draw, k) + "=" + (v if token and draw(st.booleans()) else quote(v))
        members.append((target, params))
        texts.append(text)
    return {"members": members, "lines": spread(draw, texts), "base": draw(S(BASES)), "kind": draw(S(["response", "response", "request"]))}


LINK_NOTES = {"LINK_REV", "LINK_BAD_ANCHOR", "LINK_BAD_TYPE", "LINK_BAD_HINT_TARGET", "LINK_RESOURCE_HINTS"}


def check_links(c, rec):
    m = lib.req(header("Link", c["lines"])) if c["kind"] == "request" else lib.resp(header("Link", c["lines"]))
    if c["base"]:
        m["base"] = c["base"]
    linter = lib.lint(m)
    same([(t, dict(p)) for t, p in linter.headers.parsed.get("link")], [(t, dict(p)) for t, p in c["members"]], "Link must be its targets with their parameters", lines=c["lines"])
    want, hints, listed = [], set(), {}
    for target, params in c["members"]:
        p = dict(params)
        if "rev" in p:
            want.append(("LINK_REV", target, p["rev"]))
        if p.get("anchor") in BADANCHOR:
            want.append(("LINK_BAD_ANCHOR", target, p["anchor"]))
        if p.get("type") in BADTYPE:
            want.append(("LINK_BAD_TYPE", target, p["type"]))
        for rel in p.get("rel", "").lower().split():
            if rel in HINTS:
                rec.label("hint")
                scheme = scheme_of(target, c["base"])
                if scheme in ("", "http", "https"):
                    hints.add(rel)
                    listed.setdefault(rel, []).append(target)
                else:
                    want.append(("LINK_BAD_HINT_TARGET", target, rel + " " + scheme))
    got, found = [], []
    for n in all_notes(linter.notes):
        name, v = type(n).__name__, n.vars
        if name == "LINK_RESOURCE_HINTS":
            found.append(v["hints"])
            for rel in HINTS:
                shown = re.search(f"(?m)^- `{rel}`: (.*)$", str(v["detail_lines"])) if "detail_lines" in v else None
                if shown:
                    same(shown.group(1), ", ".join("`" + (t.replace("`", "") or " ") + "`" for t in listed.get(rel, [])), "the targets listed for a hint", rel=rel)
        elif name in LINK_NOTES:
            got.append((name, v["link"], v[{"LINK_REV": "rev", "LINK_BAD_ANCHOR": "anchor", "LINK_BAD_TYPE": "type", "LINK_BAD_HINT_TARGET": "rel"}[name]] + (" " + v["scheme"] if "scheme" in v else "")))
    rec.nt(bool(want) or bool(hints) or len(c["members"]) > 1)
    same(sorted(got), sorted(want), "what is said about the links", lines=c["lines"], base=c["base"])
    same(found, [", ".join(r for r in HINTS if r in hints)] if hints else [], "the resource hints that are reported", lines=c["lines"])


@st.composite
def alt_svc(draw):
    members = draw(st.lists(st.one_of(S(["clear", "clear"]), S(['h3=":443"', 'h2="alt.example:443"; ma=3600; persist=1', 'h3-29=":50781";ma=2592000', 'w%3D="a,b;c"', 'h3="clear"', "Clear", 'clear=":1"', "h3"])), min_size=1, max_size=4))
    return {"members": members, "lines": spread(draw, members)}


def check_alt_svc(c, rec):
    linter = lib.lint(lib.resp(header("Alt-Svc", c["lines"])))
    want = [m for m in c["members"] if m == "clear" or "=" in m]
    rec.nt("clear" in want and len(want) > 1)
    same(linter.headers.parsed.get("alt-svc"), want, "Alt-Svc must be its usable members", lines=c["lines"])
    same(sum(1 for n in all_notes(linter.notes) if type(n).__name__ == "ALTSVC_CLEAR_LIST"), int("clear" in want and len(want) > 1), "ALTSVC_CLEAR_LIST must be given when 'clear' isn't alone", lines=c["lines"])


@st.composite
def via(draw):
    members = draw(st.lists(S(["1.1 a", "HTTP/1.1 proxy.example:80", "2 x (a, b)", "1.0 f (a (nested, b) c)", '1.1 y (q\\)uote, z)', "1.1 vegur"]), min_size=1, max_size=4))
    return {"members": members, "lines": spread(draw, members), "kind": draw(S(["request", "response"]))}


def check_via(c, rec):
    linter = lib.lint(lib.req(header("Via", c["lines"])) if c["kind"] == "request" else lib.resp(header("Via", c["lines"])))
    rec.nt(len(c["members"]) > 1)
    same(linter.headers.parsed.get("via"), c["members"], "Via must be its members", lines=c["lines"])
    notes = [n for n in all_notes(linter.notes) if type(n).__name__ == "VIA_PRESENT"]
    same(len(notes), 1, "VIA_PRESENT must be given once")
    at = -1
    for m in c["members"]:
        at = str(notes[0].vars["via_list"]).find(m, at + 1)
        require(at >= 0, "a member of Via isn't listed in order: %r", m)


@st.composite
def age(draw):
    value = draw(st.one_of(st.integers(0, 10 ** 6).map(str), S([2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 63, 10 ** 40]).map(str), S(["-1", "-0", "", "a", "1.5", "1a", "+5", "0x5", "1 2", "1_0", "\xb2", "--1", "1, 2", "007", "-99999999999"])))
    return {"value": value, "pad": draw(S(["", " ", "\t"])), "second": draw(S([None, None, None, "1", "x"]))}


def check_age(c, rec):
    v = c["value"]
    linter = lib.lint(lib.resp(header("Age", [c["pad"] + v + c["pad"]] + ([c["second"]] if c["second"] else []))))
    number = re.fullmatch("-?[0-9]+", v)
    value = int(v) if number and v[0] != "-" else None
    rec.nt(value is None or value > 2 ** 30)
    if v == "+5":
        return
    same(linter.headers.parsed.get("age"), value, "Age must be its number", field=v)
    want = ["AGE_NOT_INT"] if not number else ["AGE_NEGATIVE"] if value is None else ["AGE_LARGE"] if value > 2 ** 31 else []
    same([type(n).__name__ for n in all_notes(linter.notes) if type(n).__name__ in ("AGE_NOT_INT", "AGE_NEGATIVE", "AGE_LARGE")], want, "what is said about Age", field=v)


@st.composite
def start_lines(draw):
    return {"phrase": draw(st.one_of(st.binary(max_size=8), S([b"OK", b"", b"Not \xc3\xa9", b"\xff", b"\x00", b"\x7f", b"\x80", b"a b"]), st.none())), "version": draw(S([b"HTTP/1.1", b"1.1", b"HTTP/2", b"\xff", b""])),
            "status": draw(S([b"200", b"404", b"299"])), "odd": draw(S([b"", b"abc", b"2e2", b"-200", b"+200", b" 200", b"200 ", b"\xb2\xb2", b"2_00", b"0x1", b"200\n"])), "method": draw(st.one_of(S([b"GET", b"get", b"FOO", b"\xc3\xa9", b"", b"M-SEARCH"]), st.binary(max_size=4)))}


def check_start_lines(c, rec):
    ascii_ = lambda b: "".join(chr(x) if x < 128 else "\ufffd" for x in b)  # noqa: E731
    linter = lib.lint(lib.msg("response", [], top=(c["version"], c["status"], c["phrase"])))
    bad = any(b > 127 for b in c["phrase"] or b"")
    rec.nt(bad or any(b > 127 for b in c["method"]))
    notes = [n for n in linter.notes if type(n).__name__ == "STATUS_PHRASE_ENCODING"]
    same(len(notes), int(bad), "STATUS_PHRASE_ENCODING must be given for phrases that aren't ASCII", phrase=c["phrase"])
    if notes:
        same(notes[0].subject, "status", "its subject")
    same((linter.version, linter.status_code, linter.status_code_str), (ascii_(c["version"]), int(c["status"]), c["status"].decode()), "what is recorded of the start line")
    if c["phrase"]:
        same(linter.status_phrase, ascii_(c["phrase"]), "the status phrase that is recorded")
    odd = lib.lint(lib.msg("response", [], top=(c["version"], c["odd"], c["phrase"])))
    same([type(n).__name__ for n in odd.notes if type(n).__name__ in ("STATUS_CODE_NON_NUMERIC", "STATUS_PHRASE_ENCODING")], ["STATUS_CODE_NON_NUMERIC"] + ["STATUS_PHRASE_ENCODING"] * int(bad), "what is said about the status line", status=c["odd"], phrase=c["phrase"])
    same((odd.status_code, odd.status_code_str), (None, ascii_(c["odd"])), "what is recorded of the start line")
    linter = lib.lint(lib.msg("request", [], top=(c["method"], b"http://e.example/", c["version"])))
    same((linter.method, linter.version, linter.uri), (ascii_(c["method"]), ascii_(c["version"]), "http://e.example/"), "what is recorded of the start line")


CHECKS = [
    Check("Link", links, check_links, 1800, 36000, "links built from targets and parameters, against a model of what is to be said"),
    Check("Alt-Svc", alt_svc, check_alt_svc, 300, 5000, "lists of alternatives, with clear"),
    Check("Via", via, check_via, 300, 4000, "chains of intermediaries"),
    Check("Age", age, check_age, 400, 5000, "numbers and near-numbers"),
    Check("start lines", start_lines, check_start_lines, 500, 8000, "arbitrary bytes"),
]
