#!/usr/bin/env python3
"""Mutation testing of the checks (a development aid; no registered command uses it).

usage: mutate.py OUT.jsonl FILE.py... [--every N] [--jobs N] [--props C01,C02] [--scale 0.3]

Makes small changes to the given files of /repo in scratch copies, drops those that the repository's own
tests notice, and runs the checks of the properties anchored in the file (plus a few general ones) against the rest.
Each line of OUT says what became of one change: "tests", "C13" (the check that noticed), or "survived".
"""
import argparse, ast, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
CTEXT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
SKIP_ATTR = {"_summary", "_text", "reference", "description", "category", "level", "canonical_name"}


def mutants(src):
    """[(start, end, replacement, what)] over the text"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    raw = [l.encode() for l in lines]
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))

    def pos(line, col):
        return starts[line - 1] + len(raw[line - 1][:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    out = []

    def add(n, new, what):
        a, b = span(n)
        if src[a:b] != new:
            out.append((a, b, new, what))

    def text(n):
        a, b = span(n)
        return src[a:b]

    def visit(n, in_def=False, parents=()):
        if isinstance(n, ast.ClassDef):
            names = {t.id for s in n.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
            if "_summary" in names or any("Test" in text(b) for b in n.bases):
                return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.AnnAssign) and n.value is None:
            return
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
            return
        if isinstance(n, ast.FunctionDef):
            in_def = True
            body = n.body[1:] if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                visit(d, in_def, parents + (n,))
            for s in body:
                visit(s, in_def, parents + (n,))
            return
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            tgts = n.targets if isinstance(n, ast.Assign) else [n.target]
            if not in_def and any(isinstance(t, ast.Name) and t.id in SKIP_ATTR for t in tgts):
                return
            if n.value is not None:
                if in_def and isinstance(tgts[0], (ast.Name, ast.Attribute, ast.Subscript)) and not isinstance(n.value, ast.Constant) and False:
                    pass
                visit(n.value, in_def, parents + (n,))
            return
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                return
            if in_def:
                add(n, "pass", "drop statement")
        if in_def and isinstance(n, ast.Continue):
            add(n, "break", "continue->break")
            add(n, "pass", "continue->pass")
        if in_def and isinstance(n, ast.Break):
            add(n, "pass", "break->pass")
        if in_def and isinstance(n, ast.AugAssign):
            add(n, "pass", "drop +=")
        if in_def and isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(n.test, "True" if not isinstance(n, ast.While) else text(n.test), "cond->True")
            add(n.test, "False", "cond->False")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = type(n.ops[0])
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            mid = src[a:b]
            if CTEXT[op] in mid:
                for new in {CMP[op]} | ({">"} if op is ast.Eq and False else set()):
                    out.append((a, b, mid.replace(CTEXT[op], new, 1), f"{CTEXT[op]} -> {new}"))
        if isinstance(n, ast.BoolOp):
            word, new = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            for v, w in zip(n.values, n.values[1:]):
                a, b = span(v)[1], span(w)[0]
                if src[a:b].count(word) == 1:
                    out.append((a, b, src[a:b].replace(word, new), f"{word} -> {new}"))
            for v in n.values:
                add(v, "True" if word == "and" else "False", f"drop operand of {word}")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(" + text(n.operand) + ")", "drop not")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, ast.Constant):
            a, b = span(n.left)[1], span(n.right)[0]
            o, w = ("+", "-") if isinstance(n.op, ast.Add) else ("-", "+")
            if src[a:b].count(o) == 1:
                out.append((a, b, src[a:b].replace(o, w), f"{o} -> {w}"))
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), f"{n.value} flipped")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "int+1")
                add(n, f"{n.value - 1}" if n.value else "-1", "int-1")
            elif isinstance(n.value, str) and in_def and len(n.value) > 0 and not text(n).startswith(("f", "r", '"""', "rf")) and not any(isinstance(p, (ast.JoinedStr,)) for p in parents):
                if text(n)[0] in "\"'":
                    add(n, repr(n.value + "x"), "string changed")
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and len(n.elts) > 1 and all(isinstance(e, (ast.Constant, ast.Tuple)) for e in n.elts):
            for e in n.elts:
                rest = [text(x) for x in n.elts if x is not e]
                br = {"List": "[]", "Tuple": "()", "Set": "{}"}[type(n).__name__]
                if not (isinstance(n, ast.Tuple) and len(n.elts) == 2):
                    add(n, br[0] + ", ".join(rest) + ("," if br == "()" and len(rest) == 1 else "") + br[1], "drop element " + text(e)[:30])
        if isinstance(n, ast.Dict) and len(n.keys) > 1 and all(n.keys):
            for k, v in zip(n.keys, n.values):
                rest = [text(a) + ": " + text(b) for a, b in zip(n.keys, n.values) if a is not k]
                add(n, "{" + ", ".join(rest) + "}", "drop key " + text(k)[:30])
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("lower", "upper", "strip", "rstrip", "lstrip", "replace", "casefold", "capitalize") :
            add(n, text(n.func.value), f"drop .{n.func.attr}()")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max", "abs", "sorted", "set", "list", "unquote_string", "f_num", "int") and n.args:
            add(n, text(n.args[0]), f"drop {n.func.id}()")
        if isinstance(n, ast.Return) and n.value is not None and in_def and not isinstance(n.value, ast.Constant):
            pass
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, text(n.value), "drop slice")
        if isinstance(n, ast.JoinedStr):
            return
        for c in ast.iter_child_nodes(n):
            visit(c, in_def, parents + (n,))

    for s in tree.body:
        visit(s)
    seen, uniq = set(), []
    for m in out:
        if m[:3] not in seen:
            seen.add(m[:3])
            uniq.append(m)
    return uniq


def detail_mutants(src):
    """Each detail given to a finding replaced by a constant."""
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))
    def pos(line, col):
        return starts[line - 1] + len(lines[line - 1].encode()[:col].decode())
    out = []
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] in ("add_note", "add", "add_child", "offset_add_note", "partial"):
            for k in n.keywords:
                if k.arg and k.arg not in ("category", "field_name", "ref_uri", "field_type"):
                    v = k.value
                    out.append((pos(v.lineno, v.col_offset), pos(v.end_lineno, v.end_col_offset), '"zz"', f"detail {k.arg}"))
    return out


def regex_mutants(src):
    """Small changes to the regular expressions."""
    import re
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))
    def pos(line, col):
        return starts[line - 1] + len(lines[line - 1].encode()[:col].decode())
    out = []
    for n in ast.walk(ast.parse(src)):
        if not isinstance(n, (ast.JoinedStr, ast.Constant)) or isinstance(n, ast.Constant) and not isinstance(n.value, str):
            continue
        a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
        t = src[a:b]
        if not re.match("r|f", t[:1]) or not re.match("rf?|fr", t[:2]):
            continue
        def put(i, j, new, what):
            out.append((a + i, a + j, new, "regex " + what))
        for m in re.finditer(r"(?<=[)}\]])\*", t):
            put(m.start(), m.end(), "+", "* to +")
            put(m.start(), m.end(), "?", "* to ?")
        for m in re.finditer(r"(?<=[)}\]])\+", t):
            put(m.start(), m.end(), "*", "+ to *")
            put(m.start(), m.end(), "", "no +")
        for m in re.finditer(r"(?<=[)}\]])\?(?!:)", t):
            put(m.start(), m.end(), "", "no ?")
            put(m.start(), m.end(), "*", "? to *")
        for m in re.finditer(r"\{\{(\d*),?(\d*)\}\}", t):
            for g in (1, 2):
                if m[g]:
                    for d in (1, -1):
                        k = int(m[g]) + d
                        if k >= 0:
                            put(m.start(g), m.end(g), str(k), f"repeat {m[0]}")
        for m in re.finditer(r"\\x([0-9a-f]{2})", t):
            for d in (1, -1):
                put(m.start(1), m.end(1), "%02x" % ((int(m[1], 16) + d) % 256), "range")
        for m in re.finditer(r"([A-Za-z0-9])-([A-Za-z0-9])(?=[^\[]*\])", t):
            put(m.start(1), m.end(1), chr(ord(m[1]) + 1), "class start")
            put(m.start(2), m.end(2), chr(ord(m[2]) - 1), "class end")
        for m in re.finditer(r"\|[^|()]*(?=[|)])", t):
            put(m.start(), m.end(), "", "no alternative")
        for m in re.finditer(r"(?<=\?:)[^|()]*\|", t):
            put(m.start(), m.end(), " ", "no first alternative")
        for m in re.finditer(r"\\Z|\^(?=\(|\{|\\s|\[)", t):
            put(m.start(), m.end(), "$" if m[0] == "\\Z" else "", "anchor")
        for m in re.finditer(r"(?<= )(\\?[;=,:/.@\"-])(?= )", t):
            put(m.start(), m.end(), m[0] + "?", "optional " + m[0])
        for m in re.finditer(r" \{[A-Za-z_]+\}(?=[ )])", t):
            put(m.start(), m.end(), f" (?:{m[0]} )?", "optional" + m[0])
    return out


RUNNER = r'''
import sys, json, os
sys.path.insert(0, os.environ["VERIF_HOME"])
from pbt import core, run
import hypothesis
from hypothesis import settings, Phase
core.CPU_LIMIT = 20
props, scale = sys.argv[1].split(","), float(sys.argv[2])
sys.setrecursionlimit(3000)
out = os.dup(1); os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
for prop in props:
    try:
        checks = run.load(prop).CHECKS
    except BaseException as e:
        os.write(out, f"{prop} load {e!r}\n".encode()); sys.exit()
    for i, c in enumerate(checks):
        if c.enum is not None:
            try:
                c.enum_cases = c.enum("quick")
            except BaseException as e:
                os.write(out, f"{prop} enum {e!r}\n".encode()); sys.exit()
        os.environ["PBT_NOSHRINK"] = "1"
        r = core.run_shard(c, run.sub_seed(prop, i, 1), max(20, int(c.n * scale)), 200)
        if r.failure or r.error:
            os.write(out, f"{prop} {c.name}: {(r.failure[1] if r.failure else 'ERROR ' + r.error[-200:])[:200]!r}\n".encode()); sys.exit()
os.write(out, b"survived\n")
'''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out"); ap.add_argument("files", nargs="+")
    ap.add_argument("--every", type=int, default=1); ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--props"); ap.add_argument("--scale", type=float, default=0.3)
    ap.add_argument("--list", action="store_true"); ap.add_argument("--details", action="store_true"); ap.add_argument("--regex", action="store_true")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--again", help="an OUT of before: only those that survived then")
    a = ap.parse_args()
    anchors = {}
    for l in open(f"{HERE}/properties.jsonl"):
        d = json.loads(l)
        for f in d.get("where", d).get("files", []) if isinstance(d.get("where", d), dict) else []:
            anchors.setdefault(f, []).append(d["id"])
    def props_for(f):
        if a.props:
            return a.props.split(",")
        ps = []
        for l in open(f"{HERE}/properties.jsonl"):
            d = json.loads(l)
            if f in json.dumps(d):
                ps.append(d["id"])
        if "/parsers/" in f:
            ps += ["C19", "C28", "C10", "C27"]
        return list(dict.fromkeys([p for p in ps if p not in ("C02", "C12", "C23", "C21", "C22")] + [p for p in ps if p in ("C02", "C23", "C22")]))
    before = None
    if a.again:
        old = [json.loads(l) for l in open(a.again)]
        before = {(d["file"], d["line"], d["what"], d["old"][:60]) for d in old if d["result"] == "survived"}
    work = []
    for f in a.files:
        src = open(f"/repo/{f}").read()
        ms = detail_mutants(src) if a.details else regex_mutants(src) if a.regex else mutants(src)
        random.Random(a.seed).shuffle(ms)
        ms = ms[:: a.every]
        for m in ms:
            if before is None or any((f, src.count("\n", 0, m[0]) + 1 + k, m[3], src[m[0]:m[1]][:60]) in before for k in range(-12, 13)):
                work.append((f, src, m))
    print(len(work), "mutants", flush=True)
    if a.list:
        for f, src, m in work:
            print(f, src.count("\n", 0, m[0]) + 1, m[3], repr(src[m[0]:m[1]][:50]), "->", m[2][:50])
        return
    pool = Queue()
    for i in range(a.jobs):
        d = f"/tmp/mu/{os.getpid()}-{i}"
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", d])
        pool.put(d)
    runner = f"/tmp/mu/runner-{os.getpid()}.py"
    open(runner, "w").write(RUNNER)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    outf = open(a.out, "a")

    def one(w):
        f, src, m = w
        d = pool.get()
        res = "?"
        try:
            new = src[: m[0]] + m[2] + src[m[1]:]
            try:
                compile(new, f, "exec")
            except SyntaxError:
                return
            open(f"{d}/{f}", "w").write(new)
            env = dict(os.environ, HOME="/root", LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=f"{d}:{d}/test")
            py = "/opt/venv/bin/python"
            def ok(cmd, path=d):
                try:
                    return subprocess.run(cmd, cwd=d, env=dict(env, PYTHONPATH=path), capture_output=True, timeout=120).returncode == 0
                except subprocess.TimeoutExpired:
                    return False
            if not (ok([py, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider"], f"{d}:{d}/test") and ok([py, "test/test_fields.py", "test/http-fields.xml"]) and ok([py, "test/test_notes.py"]) and ok([py, "test/test_syntax.py"]) and ok([py, "test/smoke.py"])):
                res = "tests"
            else:
                env2 = dict(env, PYTHONPATH=f"{d}:{HERE}", HTTPLINT_REPO=d, VERIF_HOME=HERE, PBT_NOSHRINK="1", VERIF_SEED="1")
                try:
                    r = subprocess.run([py, runner, ",".join(props_for(f)), str(a.scale)], cwd=HERE, env=env2, capture_output=True, text=True, timeout=1500)
                    res = r.stdout.strip() or "crash " + r.stderr[-300:]
                except subprocess.TimeoutExpired:
                    res = "timeout"
        finally:
            open(f"{d}/{f}", "w").write(src)
            pool.put(d)
        line = {"file": f, "line": src.count("\n", 0, m[0]) + 1, "what": m[3], "old": src[m[0]:m[1]], "new": m[2], "result": res, "span": [m[0], m[1]]}
        outf.write(json.dumps(line) + "\n"); outf.flush()

    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, work))
    for _ in range(a.jobs):
        shutil.rmtree(pool.get(), ignore_errors=True)


main()
