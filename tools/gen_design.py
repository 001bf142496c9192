#!/usr/bin/env python3
"""Writes DESIGN.md (from tools/design_head.md, the tables below, the modules' own notes, known_findings.json and
tools/plants.json) and tools/manifest_notes.json."""
import glob, json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(HERE, "tools")

# property -> (deciding method for the manifest, what the oracle is, what it cannot show)
D = {
"C01": ("generated and hostile messages, linted and rendered in full; oracle: no exception escapes and rendering uses no placeholder",
        "Implicit oracle: linting any generated message through the documented calls must return within a CPU limit, and every note's summary, detail and name must render with no unresolved template variable. Values come from each field's vocabulary, from edits of it, from raw bytes, and from long repetitive and deeply nested texts (which is what finds exponential regular expressions).",
        "Messages are at most tens of kilobytes; the CPU limit of one case is 40 s."),
"C02": ("differential: the same message linted in English and in another locale; every catalogue entry rendered with marked variables",
        "Differential. Everything but the wording (class, subject, level, category, variables, parsed values, caching results) must be the same in each locale of httplint/translations; every note class of the code, formatted with marked variables in each locale, must use the variables the English text uses and no others; nested, concurrent and exceptional locale scopes must restore the locale.",
        "Untranslated texts are not findings: some messages have no translation in some catalogues."),
"C03": ("generated messages with markup payloads; oracle: the HTML structure of every detail equals that of the same note with harmless values",
        "Metamorphic: each note's detail is rendered with the message's data and with harmless words of the same shape; the sequences of HTML elements and attributes must be equal, whitelisted, and contain no payload marker. Payloads are written for HTML, Markdown links, images, code spans, lists, headings, tables, character references and line starts.",
        "Elements are compared as html.parser sees them."),
"C04": ("metamorphic: the same body delivered in two generated splits (including single bytes and empty chunks)",
        "Metamorphic: all findings, hashes, lengths, samples and decoded results must be the same for any two splits of the same body. Bodies include gzip with every optional header part, several codings, corrupt and truncated ones, and texts with multi-byte characters.",
        "Splits are sampled, with the gzip header's and the sample's edges preferred."),
"C05": ("round trip through independently produced codings, and differential against zlib and brotli for corrupt bodies",
        "Round trip: a payload encoded here (gzip with generated header parts and levels, brotli, stacked codings, large and highly compressible payloads) must come back with its length, MD5 and first 8192 bytes; a corrupted body must be reported exactly when the reference decoder rejects it, with as much decoded; bodies either side of 100 MB.",
        "The limit itself is tested with few cases, as each needs 100 MB."),
"C06": ("reference model of the Content-Length verdicts over bodies, codings, statuses, methods and HEAD", "Reference model: which of correct, incorrect, not allowed, not defined must be reported, given the bytes fed, the declared length and the kind of message.", "-"),
"C07": ("metamorphic: fields permuted across names, names re-cased, values padded", "Metamorphic: the findings (as a multiset, positions renamed) and the results must not change.", "The relative order of lines of one name is kept."),
"C08": ("metamorphic: the members of a list laid out on one line or several, with empty members and padding", "Metamorphic: values and findings of the list must be those of its members, wherever the line breaks are; lists, Structured Fields and JSON fields each with their own joining rules.", "Members have balanced quotes."),
"C09": ("metamorphic: a message with and without the later lines of a single-valued field", "Metamorphic: later lines must change nothing but add one repetition report.", "-"),
"C10": ("values derived from, and edited away from, the fields' published ABNF, judged by an independent ABNF recogniser", "Differential: an ABNF engine and grammars transcribed from the RFCs (pbt/abnf.py, pbt/rfc.py), independent of httplint's regular expressions, derive valid values and decide edited ones; the field must report bad syntax exactly for values outside the grammar.", "Where the specifications' sender and recipient grammars differ only what both agree on is judged."),
"C11": ("instants written in the three date formats, and edited dates judged by grammar and calendar", "Round trip and reference parser: instants from year 1000 to 9999 in every format and time zone of the process must be read back exactly; edited ones must be rejected exactly when the grammar or calendar does.", "The day name isn't compared with the date."),
"C12": ("round trip through an independent RFC 9651 serialiser, and a reference parser for edited values", "Round trip and differential against a Structured Fields serialiser and parser written here.", "-"),
"C13": ("exhaustive table of directives, statuses and methods, and generated responses, against a model of RFC 9111 section 3", "Reference model of storability by private and shared caches and of the finding that explains it.", "no-cache and private without field names."),
"C14": ("generated times around each threshold against a model of RFC 9111 sections 4.2.1-4.2.4", "Reference model of age, freshness lifetimes, freshness, and every finding about them, with the durations' wording computed separately.", "Clock is the start_time given."),
"C15": ("generated directive lists against a reference model of parsing and cross-checks", "Reference model: tokenisation, types, first-wins, and each cross-check.", "-"),
"C16": ("every status exhaustively, and generated mixtures, against a table of what each status requires", "Reference model.", "The table restates the catalogue's texts and RFC 9110."),
"C17": ("generated Set-Cookie and Cookie lines against an implementation of RFC 6265's algorithms", "Reference implementation of sections 5.1.1, 5.1.4, 5.2 and of the reports.", "-"),
"C18": ("exhaustive origin and preflight tables, and generated exchanges, against a model of Fetch's checks", "Reference model of preflight recognition, origin matching and parsed values, including each finding's variables.", "-"),
"C19": ("every known field in each kind of message, and generated lines, against a table of where fields are defined", "Reference table and metamorphic: ignored lines must change nothing else.", "The table is the checker's own reading of the specifications."),
"C20": ("generated sections against a model of recorded text, sizes, encodings and positions", "Reference model; and metamorphic: a line's own findings follow it to any position.", "-"),
"C21": ("repetition, generated interleavings of several linters, threads, and fresh processes with other hash seeds and time zones", "Metamorphic: results must be equal each time.", "Thread schedules are those the interpreter gives; a race that needs one exact switch can be missed."),
"C22": ("round trip of finished linters through pickle", "Round trip: everything observable must survive, including rendering in each locale.", "-"),
"C23": ("differential: the command line's output against the library called directly", "Differential: an independent HTTP/1 writer makes the input; the output expected is built from the library's notes for the same parts.", "Well-formed HTTP/1.x only."),
"C24": ("differential: no_content against normal mode, and against any other body", "Differential: exactly the findings that depend on content may go.", "-"),
"C25": ("values built from types and parameters against a reference parser and model of the reports", "Reference parser, and metamorphic over token, quoted and escaped forms.", "Well-formed parameters."),
"C26": ("contents encoded in generated charsets against a reference model, with chardet as the stated detector", "Reference model: undecodable, mismatch and implicit verdicts; signatures of images.", "chardet's guess is taken as given."),
"C27": ("every known name exhaustively, and near misses, probed for the handler found", "Reference table of names.", "-"),
"C28": ("pairs of fields and messages built around each cross-reference against a model", "Reference model of reporting endpoints, Vary and variants, codings, and other pairs, over presence, order, section and value.", "-"),
"C29": ("targets built from their parts and from bytes against an independent reading of RFC 3986/3987", "Reference model and idempotence.", "-"),
"C30": ("ranges built from numbers, or with one thing wrong, against a model of RFC 9110 section 14", "Reference model.", "-"),
"C31": ("policies built from directives against models of their specifications", "Reference models per field.", "-"),
"C32": ("JSON written here, edited and split over lines, against json and a model of the members", "Reference model; json.loads as parser, strict about numbers.", "-"),
"C33": ("metamorphic: a message with and without lines with unknown names", "Metamorphic.", "-"),
"C34": ("fields built from members against models of RFC 9110/9112", "Reference models per field.", "-"),
"C35": ("generated instants in each date format around each threshold against a model", "Reference model.", "-"),
"C36": ("Structured Fields with members of every type against tables of the types each field defines", "Reference tables.", "-"),
"C37": ("links, alternatives, intermediaries, ages and start lines built from their parts against models", "Reference models.", "-"),
"C38": ("generated messages and every status; oracle: a model of what findings may point at", "Invariant over all findings, and a table of where central findings belong.", "The order of several names in one subject isn't judged, except where the table gives it."),
"C39": ("generated messages with plausible and broken values of every field, and the same with one line changed; oracle: the published category and level of each kind and topic of each field, and a comparison of findings by rendering their details", "Model check, plus equality relations (linted again, pickled, one line changed).", "Findings whose details have the same text but aren't the same values aren't judged."),
"C40": ("values, targets, phrases, names, lines, members, content and chunks made by repeating one to three parts of near-valid ones until they are long; oracle: a limit on CPU time several times what the slowest takes", "Resource bound, measured.", "Quadratic time with a small factor isn't seen at these sizes; the time rendering more than 200 findings takes isn't measured."),
"C41": ("messages made around one or more faults of some ninety kinds, with neighbours that aren't at fault; oracle: the details each of the findings should have, written down as the message is made", "Reference model: the expected findings are computed from the parts the message was made of, in order.", "Details are compared as they are given, not as they read in the text (C03, C19, C38 look at the texts); the position in a badly formed Structured Field, and the words for what is wrong with it, are those of http_sf."),
"C42": ("bombs in gzip, Brotli and stacks of codings around the limit and up to 1 GB in 1-50 chunks; the long and repetitive messages of C40; random messages linted over and over; oracles: a limit on the peak tracemalloc tells, several times the most that was seen; weak references that must be dead", "Resource bound, measured; history of several lintings.", "Memory the C decoders take themselves isn't counted (it is bounded by their windows), and up to 4 KB kept for each message isn't seen."),
"C43": ("sources made of classes, calls and look-alikes through pybabel, and the library itself; catalogues with translations broken in known ways; translation jobs with a stand-in for the model that fails, says nothing and is interrupted; oracles: the messages and faults that were put in, a model of translating, and round trips of catalogues", "Reference model: what should be found is written down as the input is made.", "The wording of reports; what a model would say (a stand-in takes its place); compiling catalogues is Babel's."),
}


def main():
    json.dump({k: [v[0], "Searches generated inputs, so finds no proof of absence; trusts the oracle in pbt/props/%s.py. Not covered: %s" % (k.lower(), v[2]) if v[2] != "-" else "Searches generated inputs, so finds no proof of absence; trusts the oracle in pbt/props/%s.py." % k.lower()] for k, v in D.items()},
              open(f"{T}/manifest_notes.json", "w"), indent=1)
    env = dict(os.environ, PYTHONPATH=f"/repo:{HERE}", PYTHONDONTWRITEBYTECODE="1")
    code = """
from pbt import core
import importlib, json, sys
out = {}
for p in sys.argv[1:]:
    m = importlib.import_module("pbt.props." + p.lower())
    out[p] = {"assume": m.ASSUMPTIONS, "rule": m.RULE, "checks": [(c.name, c.n, c.thorough, c.note, c.enum is not None) for c in m.CHECKS]}
print(json.dumps(out))
"""
    props = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
    mods = json.loads(subprocess.run(["/opt/venv/bin/python", "-c", code] + [p["id"] for p in props], env=env, capture_output=True, text=True, check=True).stdout)
    plants = []
    for d in sorted(glob.glob(f"{HERE}/seeded/*/meta.json")):
        plants.append((os.path.basename(os.path.dirname(d)), json.load(open(d))))
    caught = json.load(open(f"{T}/plants.json")) if os.path.exists(f"{T}/plants.json") else {}
    out = [open(f"{T}/design_head.md").read().rstrip(), "", "## How each property is decided", ""]
    for p in props:
        m = mods[p["id"]]
        how, oracle, limit = D[p["id"]]
        out += [f"### {p['id']}: {p['title']}", "", p["statement"] if "statement" in p else "", "", "**Oracle.** " + oracle, "", "**Generated.** " + "; ".join(
            f"{name}: " + (f"{note or 'see the module'} (exhaustive)" if enum else f"{note or 'built from the parts the specification defines'} ({n} cases quick, {t} thorough)") for name, n, t, note, enum in m["checks"]) + ". Here " + m["rule"] + "."]
        if m["assume"]:
            out += ["", "**Assumed or left out.** " + "; ".join(m["assume"]) + (f". {limit}" if limit != "-" else ".")]
        elif limit != "-":
            out += ["", "**Left out.** " + limit]
        out += [""]
    out += ["## Planted bugs", "", "Each is in seeded/ with its demonstration; the last column says what its property's quick check did, seed 1, when it was planted and again when this was written.", "", "| change | property | breaks | needs | quick check |", "|---|---|---|---|---|"]
    for name, meta in plants:
        cell = lambda s: str(s).replace("|", "\\|").replace("\n", " ")  # noqa: E731
        out.append(f"| {name} | {meta['property']} | {cell(meta['what_it_breaks'])} | {cell(meta['needs'])} | {caught.get(name, 'caught')} |")
    out += ["", open(f"{T}/design_tail.md").read().rstrip(), "", "## Defects found", "", "All were repaired in `fix:` commits (known_findings.json lists them; nothing is suppressed):", ""]
    for f in json.load(open(f"{HERE}/known_findings.json"))["findings"]:
        out.append(f"- {f['property']}" + (f", {f['commit']}" if f.get("commit") else "") + f": {f['what']}")
    open(f"{HERE}/DESIGN.md", "w").write("\n".join(out) + "\n")


main()
