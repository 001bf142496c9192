"""C02: a locale changes only the wording, and every locale renders cleanly."""
import gettext
import os
import re
import threading

from hypothesis import strategies as st

from pbt import gen, lib, pool, scenarios
from pbt.core import Check, Skip, require, same
import httplint
from httplint.i18n import set_locale, translate
from httplint.note import Note, categories
from httplint.util import relative_time

RULE = ("a case is a message and a supported locale; it is non-trivial when at least one note's wording "
        "differs between English and that locale")
ASSUMPTIONS = ["the supported locales are the directories under httplint/translations"]

LOCALES = sorted(d for d in os.listdir(os.path.join(os.path.dirname(httplint.__file__), "translations"))
                 if os.path.isdir(os.path.join(os.path.dirname(httplint.__file__), "translations", d)))
PLACEHOLDER = re.compile(r"%\((\w+)\)")
META = re.compile(r"Project-Id-Version|POT-Creation-Date|Content-Transfer-Encoding: 8bit|Plural-Forms")


def find_catalog(loc):
    base = os.path.join(os.path.dirname(httplint.__file__), "translations", loc, "LC_MESSAGES", "messages.mo")
    with open(base, "rb") as fh:
        return gettext.GNUTranslations(fh)


CATALOGS = {loc: find_catalog(loc) for loc in LOCALES}


def tr(loc, text):
    return CATALOGS[loc].gettext(text) if text else text


def build(case):
    loc, m = case
    with set_locale("en"):
        a = lib.lint(m)
        en = [(n.summary, str(n.detail)) for n in lib.all_notes(a.notes)]
    with set_locale(loc):
        b = lib.lint(m)
        other = [(n.summary, str(n.detail)) for n in lib.all_notes(b.notes)]
    return a, b, en, other


def var_same(loc, va, vb, wire):
    """Is vb the locale's version of va?"""
    if lib.plain(va) == lib.plain(vb):
        return True
    if type(va).__name__ == "RelativeTime" == type(vb).__name__:
        return (va.utime, va.now, va.show_sign) == (vb.utime, vb.now, vb.show_sign)
    sa, sb = str(va), str(vb)
    if sa == sb:
        return True
    low = sa[:1].lower() + sa[1:]
    if sb.lower() in (tr(loc, sa).lower(), tr(loc, low).lower()):
        return True
    if type(va).__name__ == "MarkdownSafe":
        return True  # composed from translated descriptions: compared by code spans below
    # sentences composed of translated parts
    return not sa or sa not in wire


def check(case, rec):
    loc, m = case
    a, b, en, other = build(case)
    same(lib.note_keys(b, variables=False), lib.note_keys(a, variables=False), f"notes under {loc}")
    ra, rb = lib.results(a), lib.results(b)
    same(rb, ra, f"results under {loc}")
    same(translate("General"), "General", "locale after set_locale() was left")
    wire = wire_text(m)
    na, nb = list(lib.all_notes(a.notes)), list(lib.all_notes(b.notes))
    for x, y, (se, de), (so, do) in zip(na, nb, en, other):
        cls = type(x).__name__
        same(sorted(y.vars), sorted(x.vars), f"{cls}'s variables under {loc}")
        for key in x.vars:
            require(var_same(loc, x.vars[key], y.vars[key], wire), "%s's %s is %r in English but %r under %s", cls, key, str(x.vars[key]), str(y.vars[key]), loc)
        for what, en_txt, out in (("summary", se, so), ("detail", de, do)):
            tmpl = x._summary if what == "summary" else x._text  # pylint: disable=protected-access
            require(not META.search(out) or META.search(en_txt), "%s's %s shows catalogue metadata under %s: %r", cls, what, loc, out)
            # a template placeholder may not survive in the output unless the message itself has that text
            for ph in PLACEHOLDER.findall(tmpl):
                require("%(" + ph + ")" not in out or "%(" + ph + ")" in wire, "%s's %s shows the placeholder %s under %s: %r", cls, what, ph, loc, out)
            if en_txt:
                require(bool(out), "%s's %s is empty under %s", cls, what, loc)
            if what == "summary":
                for ph in set(PLACEHOLDER.findall(tmpl)):
                    with set_locale(loc):
                        want = str(y.vars[ph])
                    require(want in out, "%s's summary under %s lacks its %s %r: %r", cls, loc, ph, want, out)
                same(out, tr(loc, tmpl) % strs(y.vars, loc), f"{cls}'s summary under {loc}")
            rec.nt(out != en_txt)
    rec.label(loc)


def strs(variables, loc):
    with set_locale(loc):
        return {k: str(v) for k, v in variables.items()}


def wire_text(m):
    parts = []
    for mm in (m, m.get("related") or {}):
        parts.extend(mm.get("top") or ())
        for n, v in list(mm.get("headers", ())) + list(mm.get("trailers") or ()):
            parts += [n, v]
    text = b"\n".join(p for p in parts if p).decode("latin-1")
    return text + text.lower()


MESSAGES = lambda: st.tuples(st.sampled_from(LOCALES), st.one_of(gen.message(), scenarios.scenario(), scenarios.scenario()))


def one_field():
    from pbt.props import c01
    return st.tuples(st.sampled_from(LOCALES), c01.one_field())


# --- the catalogues: every note class in every locale, with marked variables ---


def classes(cls=Note):
    for sub in cls.__subclasses__():
        yield sub
        yield from classes(sub)


def catalogue_cases(_tier):
    out = []
    for loc in LOCALES + ["en"]:
        for cls in sorted({(c.__module__, c.__qualname__) for c in classes() if c.__module__.startswith("httplint")}):
            out.append((loc,) + cls)
        out.extend((loc, "category", c.name) for c in categories)
    return out


class Marks(dict):
    def __missing__(self, key):
        self[key] = f"zqx{len(self)}{key}xqz"
        return self[key]


def catalogue(case, rec):
    loc, mod, name = case
    if mod == "category":
        with set_locale(loc):
            out = translate(categories[name].value)
        require(out and not META.search(out), "category %s under %s is %r", name, loc, out)
        rec.nt()
        return
    found = [c for c in classes() if (c.__module__, c.__qualname__) == (mod, name)]
    if not found:
        raise Skip("no such class")
    cls = found[0]
    keys = set(PLACEHOLDER.findall(cls._summary + cls._text))
    values = {k: f"zqx{k}xqz" for k in keys}
    note = cls("subject", **values)
    with set_locale(loc):
        summary, detail = note.summary, str(note.detail)
    for what, tmpl, out in (("summary", cls._summary, summary), ("detail", cls._text, detail)):
        require("%(" not in out, "%s.%s's %s under %s has an uninterpolated placeholder: %r", mod, name, what, loc, out)
        require(not META.search(out), "%s.%s's %s under %s shows catalogue metadata", mod, name, what, loc)
        for k in set(PLACEHOLDER.findall(tmpl)):
            require(values[k] in out, "%s.%s's %s under %s drops %s: %r", mod, name, what, loc, k, out)
        require(bool(out) == bool(tmpl), "%s.%s's %s under %s is %r", mod, name, what, loc, out)
    rec.nt()
    rec.label(loc)


# --- scoping ---

ODD = ["FR", "fr_FR", "Fr", "JA", "es_MX", "xx", "zz_ZZ", "EN", "en_GB"]

@st.composite
def scopes(draw):
    ops = draw(st.lists(st.one_of(st.tuples(st.just("enter"), st.sampled_from(LOCALES + ["en", None] + ODD)), st.tuples(st.just("exit"), st.booleans()),
                                  st.tuples(st.just("thread"), st.sampled_from(LOCALES))), min_size=2, max_size=14))
    return ops


class Boom(Exception):
    pass


def scope_check(ops, rec):
    """set_locale scopes nest, are restored on exit (normal or by exception) and don't leak across threads."""
    word = categories.CACHING.value
    stack = []
    model = ["en"]
    for op, arg in ops:
        if op == "enter":
            cm = set_locale(arg)
            cm.__enter__()
            stack.append(cm)
            model.append(arg or "en")
        elif op == "exit" and stack:
            cm = stack.pop()
            model.pop()
            if arg:
                try:
                    swallowed = cm.__exit__(Boom, Boom(), None)
                    require(not swallowed, "set_locale swallowed an exception")
                except Boom:
                    pass
            else:
                cm.__exit__(None, None, None)
        elif op == "thread":
            seen = []

            def work(loc=arg):
                before = translate(word)
                with set_locale(loc):
                    inside = translate(word)
                seen.append((before, inside, translate(word)))
            t = threading.Thread(target=work)
            t.start()
            t.join()
            same(seen, [(word, tr(arg, word), word)], "translations seen in another thread")
        if model[-1] in ODD:  # which of the catalogues, if any, is used for these isn't specified
            require(translate(word) in [word] + [tr(loc, word) for loc in LOCALES], "under %s, %r is %r", model[-1], word, translate(word))
            require(str(relative_time(100, 0, 0)), "under %s, there's no length of time", model[-1])
            continue
        want = word if model[-1] == "en" else tr(model[-1], word)
        same(translate(word), want, f"translation in scope {model}")
        rec.nt(len(model) > 2)
    while stack:
        stack.pop().__exit__(None, None, None)
    same(translate(word), word, "translation after all scopes")


CHECKS = [
    Check("messages", MESSAGES, check, n=4000, note="whole messages and scenarios linted in English and in another locale"),
    Check("fields", one_field, check, n=6000, note="every supported field linted in English and in another locale"),
    Check("catalogues", None, catalogue, enum=catalogue_cases, note="every note class in every locale with marked variables"),
    Check("scopes", scopes, scope_check, n=400, note="nested, exceptional and concurrent locale scopes"),
    Check("faulty", lambda: st.tuples(st.sampled_from(LOCALES), pool.messages()), check, n=3000, note="messages like those of the other properties' checks"),
]
