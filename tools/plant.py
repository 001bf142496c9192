#!/usr/bin/env python3
"""Plant a bug in a scratch copy of /repo, confirm it, keep it under seeded/, and see whether the check catches it.

usage: plant.py FILE.py...      each FILE defines ID, PROPERTY, EDITS [(path, old, new)], NEEDS, BREAKS, DEMO
"""
import json, os, re, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run("git -C /repo rev-list HEAD --not --grep='^fix:' | head -1", shell=True, capture_output=True, text=True).stdout
PRELUDE = '''import os, sys
sys.path.insert(0, os.getcwd())
from httplint import HttpRequestLinter, HttpResponseLinter


def response(headers, status=b"200", reason=b"OK", version=b"HTTP/1.1", content=b"", trailers=(), request=None, start=0, **kw):
    r = HttpResponseLinter(start_time=start, **kw)
    if request is not None:
        r.request = request
    r.process_response_topline(version, status, reason)
    r.process_headers(list(headers))
    if content:
        r.feed_content(content)
    r.finish_content(True, list(trailers))
    return r


def request(headers, method=b"GET", target=b"https://example.com/", version=b"HTTP/1.1", content=b"", trailers=(), start=0, **kw):
    q = HttpRequestLinter(start_time=start, **kw)
    q.process_request_topline(method, target, version)
    q.process_headers(list(headers))
    if content:
        q.feed_content(content)
    q.finish_content(True, list(trailers))
    return q


def notes(m):
    return [type(n).__name__ for n in m.notes]


'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def plant(path, check=True):
    spec = runpy.run_path(path)
    pid, bug = spec["PROPERTY"], spec["ID"]
    work = f"/tmp/pl/{bug}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs("/tmp/pl", exist_ok=True)
    try:
        sh(f"cp -a /repo {work} && git -C {work} checkout -q -- .")
        for name, old, new in spec["EDITS"]:
            p = f"{work}/{name}"
            text = open(p).read()
            if text.count(old) != 1:
                return f"{bug}: {name}: {text.count(old)} matches for {old!r}"
            open(p, "w").write(text.replace(old, new))
        diff = sh(f"git -C {work} diff").stdout
        orig = sh("git -C /repo log --format=%H").stdout.split()
        first = sh("git -C /repo log --format='%H %s'").stdout.splitlines()
        base = next(l.split()[0] for l in first if not l.split(" ", 1)[1].startswith("fix:"))
        warn = ""
        was = set()
        for name, _, _ in spec["EDITS"]:
            was |= set(sh(f"git -C /repo show {base}:{name}").stdout.splitlines())
        gone = [l[1:] for l in diff.splitlines() if l[:1] == "-" and l[:3] != "---" and l[1:].strip() and l[1:] not in was]
        if gone:
            warn = f" [not original: {gone[:1]}]"
        demo = PRELUDE + spec["DEMO"]
        out = f"{work}.out"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(f"{out}/patch.diff", "w").write(diff)
        open(f"{out}/demo.py", "w").write(demo)
        open(f"{out}/demo.sh", "w").write('#!/bin/bash\n# exit 0 where the property holds\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": pid, "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)
        good = sh(f"bash {out}/demo.sh", cwd="/repo")
        bad = sh(f"bash {out}/demo.sh", cwd=work)
        if good.returncode != 0:
            return f"{bug}: demo fails on the unchanged tree: {good.stderr[-400:]}"
        if bad.returncode == 0:
            return f"{bug}: demo passes with the change"
        sh(f"sed 's#/repo#{work}#g' /opt/vp/test.sh > {out}.test.sh")
        t = sh(f"bash {out}.test.sh {out}.json")
        base_ok = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        got = json.load(open(f"{out}.json"))
        passed = got.get("passed")
        passed = set(passed) if isinstance(passed, list) else {k for k, v in got.items() if v in ("passed", "PASS")}
        missing = base_ok - passed
        if missing:
            return f"{bug}: breaks tests {sorted(missing)[:4]}"
        dest = f"{HERE}/seeded/{bug}"
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(f"{HERE}/seeded", exist_ok=True)
        shutil.copytree(out, dest)
        res = "kept" + warn + " (demo: " + (bad.stderr.strip().splitlines() or ["rc %d" % bad.returncode])[-1][:110] + ")"
        if check:
            c = sh(f"HTTPLINT_REPO={work} VERIF_SEED=1 VERIF_TIER=quick {HERE}/check.sh {pid} quick", cwd=HERE)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            res += f"\n    {'CAUGHT' if c.returncode == 1 and v else 'MISSED'} rc={c.returncode} {v[:1]} {c.stdout.strip().splitlines()[-1:]}"
        return f"{bug}: {res}"
    finally:
        shutil.rmtree(work, ignore_errors=True)
        for x in (".out", ):
            shutil.rmtree(work + x, ignore_errors=True)
        for x in (".out.test.sh", ".out.json"):
            if os.path.exists(work + x):
                os.unlink(work + x)


if __name__ == "__main__":
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(plant, sys.argv[1:]):
            print(r, flush=True)
    sh(f"git -C {HERE} clean -fdq replays")
