"""C43: the translation tools find every message, lose none, and tell which translations can't be used."""
import collections
import contextlib
import importlib
import io
import os
import pkgutil
import re
import shutil
import sys
import tempfile
import types

from hypothesis import strategies as st

from pbt.core import REPO, Check, require, same

RULE = "a case is a source file, a catalogue or a set of them; non-trivial when it has at least two messages to find, or one that is broken, or to be translated"
ASSUMPTIONS = ["what Babel reads from a catalogue is what is in it", "a stand-in takes the place of the language model (the llm package isn't installed)",
               "variables are written %(name)s, %s or {name}, as the documentation says", "descriptions that are put together when a handler is made (of deprecated fields) or are kept in a table (of unnecessary ones) can't be extracted"]
S = st.sampled_from


class LLM(types.ModuleType):
    """Stands in for the llm package; what it says is set by each case."""

    def get_model(self, name):
        self.asked.append(name)
        return self

    def prompt(self, text):
        return self.reply(text)


llm = sys.modules["llm"] = LLM("llm")
WORDS = ["value", "the header", "ça", "日本", "don't", 'say "x"', "a\\b", "tab\there", "`code`", "<b>", "#", "x" * 90, "(see)", "1.5"]
CONFIG = os.path.join(REPO, "tools/i18n/babel.cfg")


@contextlib.contextmanager
def scratch():
    folder = tempfile.mkdtemp(prefix="c43-")
    try:
        yield folder
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def run(main, *args):
    """(exit status, what was printed)"""
    out, old = io.StringIO(), sys.argv
    sys.argv = ["tool", *args]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                main()
                code = 0
            except SystemExit as why:
                code = why.code or 0
    finally:
        sys.argv = old
    return code, out.getvalue()


# --- extraction ---
TEXT = st.lists(S(WORDS + ["%(name)s", "%(n)d", "100%%", "\n", "end."]), min_size=1, max_size=5).map(" ".join)
BASES = ["Note", "note.Note", "BAD_SYNTAX", "HttpField[TMessage]", "SingletonField[Any]", "HttpListField[ResponseLinterProtocol]", "field.HttpField", "StructuredField", "content_security_policy", "Mixin, Note", "HttpField[TMessage], Generic[TMessage]"]


def literal(draw, text):
    """Python source for a string, perhaps over several lines."""
    how = draw(st.integers(0, 3))
    if how == 0 and '"""' not in text and "\\" not in text and not text.endswith('"'):
        return '"""\\\n' + text + '"""'
    if how == 1 and len(text) > 1:
        i = draw(st.integers(1, len(text) - 1))
        return "(\n        " + repr(text[:i]) + "\n        " + repr(text[i:]) + "\n    )"
    return repr(text)


@st.composite
def sources(draw):
    """A module, and [(line, message)] that are in it."""
    lines, want = ['"""Has class X(Note): _summary = "not this" and L_("nor this")."""', "from httplint.i18n import L_, translate, ngettext", ""], []

    def put(code):
        lines.extend(code.split("\n"))

    for k in range(draw(st.integers(1, 5))):
        kind = draw(S(["class", "class", "class", "inner", "call", "call", "plural", "other class", "other"]))
        ind = ""
        if kind == "inner":
            put(draw(S([f"def make{k}():", f"class Outer{k}:", "if True:"])))
            ind = "    "
        if kind in ("class", "inner"):
            put(f"{ind}class X{k}({draw(S(BASES))}):")
            if draw(st.booleans()):
                put(f"{ind}    # _text = 'nor this'")
                put(f"{ind}    category = categories.GENERAL")
            for attr in draw(st.lists(S(["_summary", "_text", "description", "reference", "canonical_name"]), min_size=1, max_size=4, unique=True)):
                text = draw(st.one_of(TEXT, TEXT, st.just("")))
                if attr in ("_summary", "_text", "description") and text:
                    want.append((len(lines) + 1, text))
                put(f"{ind}    {attr} = " + literal(draw, text))
            if draw(st.booleans()):
                put(f"{ind}    def method(self, add_note):\n{ind}        _text = 'a local'\n{ind}        return _text")
        elif kind == "call":
            text = draw(TEXT)
            want.append((len(lines) + 1, text))
            put(draw(S(["NAME = L_(%s)", "print(f'{x} ' + translate(%s))", "def f(y=L_(%s)): pass", "call(a, {'b': [translate(%s)]})", "is_trailer and L_(%s) or None"])) % repr(text))
        elif kind == "plural":
            one, many = draw(TEXT), draw(TEXT)
            want.append((len(lines) + 1, (one, many)))
            put(f"msg = ngettext({one!r}, {many!r}, count)")
        elif kind == "other class":
            put(f"class Plain{k}:\n    label = {draw(TEXT)!r}\n    summary = {draw(TEXT)!r}")
        else:
            put(draw(S(["s = %s", "t = f(%s)", "u = {%s: 1}", "# L_(%s)"])) % repr(draw(TEXT)))
        put("")
    return {"source": "\n".join(lines), "want": want, "file": draw(S(["a.py", "field/parsers/b_c.py"]))}


def extract(folder):
    """The catalogue "make i18n-extract" would make of the files in folder."""
    from babel.messages import pofile
    from babel.messages.frontend import CommandLineInterface
    with scratch() as out:
        pot = os.path.join(out, "messages.pot")
        cli = CommandLineInterface()
        code, _ = run(lambda: cli.run(["pybabel", "-q", "extract", "--omit-header", "-F", CONFIG, "-o", pot, folder]))
        same(code, 0, "exit status of the extraction")
        with open(pot, "rb") as fh:
            return pofile.read_po(fh)


def check_extract(case, rec):
    with scratch() as folder:
        path = os.path.join(folder, case["file"])
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8") as fh:
            fh.write(case["source"])
        catalog = extract(folder)
    want = collections.defaultdict(set)
    for line, text in case["want"]:
        # the same message with and without a plural is one message
        want[text if isinstance(text, str) else text[0]].add(line)
    got = {(m.id if isinstance(m.id, str) else m.id[0]): {n for _, n in m.locations} for m in catalog if m.id}
    same(sorted(got), sorted(want), "messages extracted", source=case["source"])
    for text, lines in want.items():
        same(sorted(got[text]), sorted(lines), f"lines {text[:40]!r} is said to be on", source=case["source"])
    rec.nt(len(want) >= 2)
    rec.label(f"{min(len(want), 5)} messages")


def load_all():
    import httplint
    for _, name, _ in pkgutil.walk_packages(httplint.__path__, "httplint."):
        if not name.endswith("__main__"):
            importlib.import_module(name)


def check_tree(case, rec):
    """What the library looks up when it renders findings and descriptions is extracted from it."""
    from httplint.field import HttpField
    from httplint.note import Note, categories
    load_all()
    found = {t for m in extract(os.path.join(REPO, "httplint")) for t in ([m.id] if isinstance(m.id, str) else m.id)}

    def walk(cls):
        for sub in cls.__subclasses__():
            yield sub
            yield from walk(sub)
    for cls in walk(Note):
        if cls.__module__.split(".")[0] == "httplint":
            for attr in ("_summary", "_text"):
                text = getattr(cls, attr)
                require(not text or text in found, "%s of %s isn't extracted", attr, cls.__name__)
    for cls in walk(HttpField):
        text = cls.__dict__.get("description")
        if cls.__module__.split(".")[0] == "httplint" and isinstance(text, str):
            require(not text or text in found, "the description of %s isn't extracted", cls.__name__)
    for c in categories:
        require(c.value in found, "the category %s isn't extracted", c.value)
    for word in ("request", "response", "message", "header", "trailer", "ahead", "behind"):
        require(word in found, "%s isn't extracted", word)
    rec.nt()


# --- checking translations ---
ATOMS = ["%(name)s", "%(count)d", "%(a_b)s", "%s", "{x}", "%(count)05d", "%(share).1f", "%(name)-10s", "%d", "{a_b}", "%%"]
VARS = ATOMS[:-1]
STRAY = ["%!", "%)", "%(name)!", "%é", "%(count) )"]


@st.composite
def entries(draw, plurals=True):
    """One message of a catalogue."""
    atoms = draw(st.lists(S(WORDS + ATOMS), min_size=1, max_size=6))
    state = draw(S(["good", "good", "missing", "fuzzy", "fuzzy missing", "lost", "added", "both", "stray", "end"]))
    new = list(draw(st.permutations(atoms)))
    had = [a for a in set(atoms) & set(VARS)]
    if state in ("lost", "both") and had:
        gone = draw(S(sorted(had)))
        new = [a for a in new if a != gone] or ["…"]
    spare = sorted(set(VARS) - set(atoms))
    if state in ("added", "both") and spare:
        new.insert(draw(st.integers(0, len(new))), draw(S(spare)))
    if state == "stray":
        new.insert(draw(st.integers(0, len(new))), draw(S(STRAY)))
    if state == "end":
        new.append("%")
    out = {"id": " ".join(atoms), "string": "" if "missing" in state else " ".join(new), "fuzzy": "fuzzy" in state, "stray": state in ("stray", "end")}
    out["vars"] = sorted(set(atoms) & set(VARS)), sorted(set(new) & set(VARS))
    if plurals and not draw(st.integers(0, 7)):
        out["plural"] = out["id"] + " many"
    return out


def write(folder, lang, messages, **more):
    from babel.messages import pofile
    from babel.messages.catalog import Catalog
    catalog = Catalog(locale=lang, **more)
    nplurals = catalog.num_plurals
    for m in messages:
        flags = {"fuzzy"} if m["fuzzy"] else set()
        if "plural" in m:
            catalog.add((m["id"], m["plural"]), tuple([m["string"]] * nplurals), flags=flags, locations=m.get("where", ()))
        else:
            catalog.add(m["id"], m["string"], flags=flags, locations=m.get("where", ()), user_comments=m.get("comments", ()), auto_comments=m.get("notes", ()), context=m.get("context"))
    for old in more.get("old", ()):
        catalog.obsolete[old] = catalog.add(old, "old")
    path = os.path.join(folder, lang, "LC_MESSAGES", "messages.po")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as fh:
        pofile.write_po(fh, catalog)
    return path


def distinct(messages):
    seen = set()
    return [m for m in messages if not (m["id"] in seen or seen.add(m["id"]))]


@st.composite
def catalogs(draw):
    langs = draw(st.lists(S(["fr", "ja", "es", "zh", "pt_BR"]), min_size=1, max_size=3, unique=True))
    return {lang: distinct(draw(st.lists(entries(), max_size=6))) for lang in langs}


def issues(m):
    """[(label, variables)] that should be reported for a message."""
    out = [("FUZZY", ())] if m["fuzzy"] else []
    if not m["string"]:
        return out + [("MISSING", ())]
    before, after = m["vars"]
    before, after = ({v.strip("{}") for v in vs} for vs in (before, after))  # it says {x} as x
    lost, new = sorted(before - after), sorted(after - before)
    if lost:
        out.append(("BAD_VARIABLE", ("Missing", *lost)))
    if new:
        out.append(("BAD_VARIABLE", ("Extra", *new)))
    return out + ([("SYNTAX_ERROR", ())] if m["stray"] else [])


ISSUE = re.compile(r"^  (FUZZY|MISSING|BAD_VARIABLE|SYNTAX_ERROR) +(.*)\.\.\. \(line (\d+)\)(?: - (.*))?$")


def check_check(case, rec):
    from tools.i18n import check
    with scratch() as folder:
        for lang, messages in case.items():
            write(folder, lang, messages)
        code, text = run(check.main, "--locale_dir", folder)
        lines = {lang: open(os.path.join(folder, lang, "LC_MESSAGES", "messages.po"), encoding="utf-8").read().split("\n") for lang in case}
    want = {lang: collections.Counter() for lang in case}
    for lang, messages in case.items():
        for m in messages:
            for label, vs in issues(m):
                want[lang][(label, m["id"][:40].replace("\n", " "), vs)] += 1
            if not issues(m) and not set(m["vars"][0]) & {"%s", "%d"}:
                values = {"name": "N", "count": 1, "a_b": "B", "share": 0.5}
                m["string"] % values  # a translation that passes can be formatted
    got = {lang: collections.Counter() for lang in case}
    lang = None
    for line in text.split("\n"):
        start = re.match(r"^Checking (\S+) \(", line)
        issue = ISSUE.match(line)
        if start:
            lang = start[1]
            require(lang in case, "language %s is made up", lang)
        elif issue:
            label, preview, number, details = issue.groups()
            vs = tuple(re.split(", |: ", details)) if label == "BAD_VARIABLE" else ()
            # plurals are one message; a fault in each of its strings may be told apart
            got[lang][(label, preview, vs)] += 1
            require(lines[lang][int(number) - 1].startswith(("msgid", '"', "#", "msgctxt")), "line %s isn't where the message is", number)
    for lang in case:
        same(sorted(set(got[lang])), sorted(set(want[lang])), f"problems reported for {lang}")
        same("Checking " + lang in text, True, f"{lang} is checked")
    bad = any(label in ("BAD_VARIABLE", "SYNTAX_ERROR") for c in want.values() for label, _, _ in c)
    same(code, 1 if bad else 0, "exit status of the check")
    rec.nt(any(want.values()))
    rec.label("fails" if bad else "passes")


# --- translating ---
@st.composite
def jobs(draw):
    langs = draw(st.lists(S(["fr", "ja", "es"]), min_size=1, max_size=2, unique=True))
    files = {lang: distinct(draw(st.lists(entries(), max_size=7))) for lang in langs}
    if draw(st.booleans()):
        for messages in files.values():
            for m in messages:
                m["string"] = ""
            messages += [{"id": f"more {i}", "string": "", "fuzzy": not i % 3} for i in range(draw(st.integers(0, 6)))]
    return {"files": files, "one": draw(st.booleans()), "replies": draw(st.lists(S(draw(S([["ok", "ok", "ok", " spaced \n", "", "  ", "fail", "fail", "stop"], ["ok", "fail"], ["", "ok", "fail", "fail"]]))), max_size=16)),
            "rpm": draw(S([0, 60, 30]))}


def check_translate(case, rec):
    from tools.i18n import autotranslate, utils
    replies, prompts, slept = iter(case["replies"]), [], []

    def reply(prompt):
        prompts.append(prompt)
        what = next(replies, "ok")
        if what == "fail":
            raise RuntimeError("no answer")
        if what == "stop":
            raise KeyboardInterrupt
        text = f"translation {len(prompts)}" if what == "ok" else what
        return types.SimpleNamespace(text=lambda: text if what != " spaced \n" else f" spaced {len(prompts)}\n")
    llm.reply, llm.asked = reply, []
    saved = autotranslate.time.sleep
    autotranslate.time.sleep = slept.append
    langs = list(case["files"])[:1] if case["one"] else list(case["files"])
    with scratch() as folder:
        paths = {lang: write(folder, lang, ms) for lang, ms in case["files"].items()}
        before = {lang: utils.load_catalog(p) for lang, p in paths.items()}
        where = ["--po_file", paths[langs[0]], "--lang", langs[0]] if case["one"] else ["--locale_dir", folder]
        try:
            code, text = run(autotranslate.main, *where, "--rpm", str(case["rpm"]), "--model", "some-model")
        finally:
            autotranslate.time.sleep = saved
        after = {lang: utils.load_catalog(p) for lang, p in paths.items()}
    # a model of it
    order = langs if case["one"] else re.findall(r"^Processing (\S+) \(", text, re.M)
    answers, asked, stopped, todo_total = iter(case["replies"]), 0, False, 0
    want = {lang: {m.id: (m.string, "fuzzy" in m.flags) for m in before[lang] if m.id} for lang in before}
    for lang in order:
        failures = 0
        todo = [m for m in before[lang] if m.id and not m.pluralizable and (not m.string or "fuzzy" in m.flags)]
        for m in todo:
            if stopped:
                break
            todo_total += 1
            require(asked < len(prompts), "%r isn't translated", m.id)
            require(prompts[asked].endswith(m.id) and f"'{lang}'" in prompts[asked], "%r isn't what is asked for in %s: %r", m.id, lang, prompts[asked][-60:])
            asked += 1
            what = next(answers, "ok")
            if what == "fail":
                failures += 1
                stopped = failures >= 3
                continue
            if what == "stop":
                stopped = True
                break
            failures = 0
            string = {"ok": f"translation {asked}", " spaced \n": f"spaced {asked}"}.get(what, "")
            if string:
                want[lang][m.id] = (string, False)
        if stopped:
            break
    same(len(prompts), asked, "messages that are asked for")
    same(bool(code), stopped, "whether it says it was stopped")
    for lang in before:
        got = {m.id: (m.string, "fuzzy" in m.flags) for m in after[lang] if m.id}
        same(got, want[lang], f"the {lang} catalogue afterwards")
    if not stopped:
        same(sorted(order), sorted(langs), "languages that are translated")
    if asked:
        same(set(llm.asked), {"some-model"}, "the model that is used")
    require(all(abs(s - 60 / case["rpm"]) < 1e-9 for s in slept) if case["rpm"] else not slept, "it waits %s s between requests when told %d a minute", slept[:3], case["rpm"])
    rec.nt(asked > 0)
    rec.label("stopped" if stopped else "finished")
    rec.label(f"{min(asked, 5)} asked")


# --- loading and saving ---
@st.composite
def saved(draw):
    messages = distinct(draw(st.lists(entries(), max_size=6)))
    for m in messages:
        m["where"] = draw(st.lists(st.tuples(S(["httplint/a.py", "httplint/field/b.py"]), st.integers(1, 999)), max_size=2, unique=True))
        m["comments"] = draw(st.lists(S(["note", "ça va"]), max_size=2, unique=True))
        m["notes"] = draw(st.lists(S(["auto", "more"]), max_size=1))
        if "plural" not in m and not draw(st.integers(0, 5)):
            m["context"] = draw(S(["menu", "x y"]))
    return {"lang": draw(S(["fr", "ja", "es", "zh", "pl", "pt_BR"])), "messages": messages}


def contents(catalog):
    return ([(m.id, m.string, m.context, sorted(m.flags), sorted(m.locations), sorted(m.user_comments), sorted(m.auto_comments)) for m in catalog if m.id],
            {k: v for k, v in catalog.mime_headers if k not in ("Generated-By", "PO-Revision-Date")}, str(catalog.locale), catalog.num_plurals)


def check_saved(case, rec):
    from tools.i18n import utils
    with scratch() as folder:
        path = write(folder, case["lang"], case["messages"])
        first = utils.load_catalog(path)
        utils.save_catalog(path, first)
        once = open(path, "rb").read()
        second = utils.load_catalog(path)
        for what, a, b in zip(("messages", "headers", "locale", "plurals"), contents(second), contents(first)):
            same(a, b, f"{what} of a catalogue that was saved")
        utils.save_catalog(path, second)
        same(open(path, "rb").read(), once, "a catalogue saved twice")
        same(utils.find_po_files(folder), [path], "catalogues that are found")
        same(utils.get_lang_from_path(path), case["lang"], "the language of a catalogue")
    same(sorted(m.id if isinstance(m.id, str) else m.id[0] for m in second if m.id), sorted(m["id"] for m in case["messages"]), "messages in the catalogue")
    rec.nt(len(case["messages"]) >= 2)
    rec.label("plural" if any("plural" in m for m in case["messages"]) else "no plural")


CHECKS = [
    Check("extract", sources, check_extract, n=900, thorough=20000, note="Python sources through pybabel and the extractor, against the messages they were made of"),
    Check("tree", None, check_tree, enum=lambda tier: ["httplint"], note="everything the library looks up is extracted"),
    Check("check", catalogs, check_check, n=900, thorough=20000, note="catalogues with broken translations, against how they were broken"),
    Check("translate", jobs, check_translate, n=900, thorough=20000, note="translating with a stand-in that fails and is interrupted, against a model"),
    Check("saved", saved, check_saved, n=900, thorough=20000, note="round trip of catalogues"),
]
