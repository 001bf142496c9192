"""Command line of the checker: runs one property, writes evidence and replay files."""
from __future__ import annotations

import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

from pbt import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOBS = int(os.environ.get("PBT_JOBS", "8"))
BUDGET = {"quick": 300.0, "thorough": 720.0}


def sub_seed(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def load(prop):
    return importlib.import_module(f"pbt.props.{prop.lower()}")


def _worker(args):
    prop, idx, shard, nshards, seed, tier, deadline, left = args
    budget = max(3.0, (deadline - time.monotonic()) / left)
    # keep the library's output (if any) out of the protocol on stdout
    try:
        sys.setrecursionlimit(3000)
        check = load(prop).CHECKS[idx]
        scale = float(os.environ.get("PBT_SCALE", "1"))
        total = check.n if tier == "quick" else check.thorough
        n = max(1, int(total * scale) // nshards)
        if check.enum is not None:
            check.enum_cases = check.enum(tier)[shard::nshards]
        res = core.run_shard(check, sub_seed(seed, prop, check.name, shard), n, budget)
        return idx, shard, res.pack()
    except BaseException as exc:  # pylint: disable=broad-except
        res = core.ShardResult()
        res.error = "".join(traceback.format_exception(exc))[-4000:]
        return idx, shard, res.pack()


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as fh:
        return json.load(fh).get("findings", [])


def write_replay(prop, check, case_repr, msg, seed, history=None):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    tag = hashlib.sha256(case_repr.encode("utf-8", "backslashreplace")).hexdigest()[:10]
    path = os.path.join("replays", f"{prop}-{check.name}-{tag}.json")
    doc = {
        "property": prop,
        "check": check.name,
        "seed": seed,
        "message": msg,
        "case": case_repr,
        "how": f"./check.sh --replay {path}",
    }
    if history:
        doc["history"] = history
        doc["note"] = (
            "the case fails only after the cases in `history` ran in the same process "
            "(state carried between messages); the replay runs them first"
        )
    with open(os.path.join(VERIF, path), "w", encoding="utf-8") as fh:
        json.dump(doc, fh, indent=1)
    return path


def replay(path, quiet=False):
    """Exit 1 if the saved case still violates the property, 0 if it does not."""
    with open(path if os.path.isabs(path) else os.path.join(VERIF, path), encoding="utf-8") as fh:
        doc = json.load(fh)
    check = [c for c in load(doc["property"]).CHECKS if c.name == doc["check"]][0]
    for text in doc.get("history", []):
        try:
            core.run_case(check, core.parse_case(text), core.Rec())
        except (core.Violation, core.Skip):
            pass
    try:
        core.run_case(check, core.parse_case(doc["case"]), core.Rec())
    except core.Skip as why:
        print(f"replay: outside the domain: {why}")
        return 0
    except core.Violation as why:
        if not quiet:
            print(f"replay: {why}")
            print(f"VIOLATION property={doc['property']} replay={path}")
        return 1
    if not quiet:
        print("replay: the property holds for this case")
    return 0


def confirm(path):
    """Re-run the saved case in a fresh process."""
    proc = subprocess.run(
        [sys.executable, "-m", "pbt.run", "--replay", path],
        cwd=VERIF, capture_output=True, text=True, timeout=300, check=False,
    )
    return proc.returncode == 1 and "VIOLATION" in proc.stdout


def main(argv):
    if len(argv) == 2 and argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    only = os.environ.get("PBT_ONLY")
    start = time.monotonic()
    module = load(prop)
    tasks = []
    for idx, check in enumerate(module.CHECKS):
        if only and only not in check.name:
            continue
        total = check.n if tier == "quick" else check.thorough
        nshards = check.shards or (JOBS if (total >= 80 or check.enum) else 1)
        for shard in range(nshards):
            tasks.append((prop, idx, shard, nshards, seed, tier, start + BUDGET[tier],
                          len(module.CHECKS) - idx))
    results = collections.defaultdict(list)
    ctx = mp.get_context("fork")
    hard = BUDGET[tier] + 60
    timed_out = False
    with ctx.Pool(min(JOBS, len(tasks)), maxtasksperchild=None) as pool:
        it = pool.imap_unordered(_worker, tasks, chunksize=1)
        for _ in range(len(tasks)):
            left = max(1.0, hard - (time.monotonic() - start))
            try:
                idx, shard, packed = it.next(timeout=left)
            except mp.TimeoutError:
                timed_out = True
                break
            res = core.ShardResult.unpack(packed)
            results[idx].append((shard, res))
            if res.failure or res.error:
                # one counterexample is enough: give running shards a moment, then stop
                hard = min(hard, (time.monotonic() - start) + 5)
        pool.terminate()
    failures, errors = [], []
    evaluations = skipped = 0
    nontrivial, samples, per_check = set(), [], {}
    for idx, lst in sorted(results.items()):
        check = module.CHECKS[idx]
        lst.sort(key=lambda t: t[0])
        labels, cevals, cdist, cnt, cskip, wall = collections.Counter(), 0, set(), set(), 0, 0.0
        csamples = []
        for _, res in lst:
            cevals += res.evaluations
            cskip += res.skipped
            cdist |= res.distinct
            cnt |= res.nontrivial
            labels.update(res.labels)
            csamples.extend(res.samples)
            wall = max(wall, res.wall)
            if res.failure:
                failures.append((check, res.failure))
            if res.error:
                errors.append((check, res.error))
        evaluations += cevals
        skipped += cskip
        nontrivial |= {(check.name, d) for d in cnt}
        samples.extend(csamples[:3])
        per_check[check.name] = {
            "evaluations": cevals, "distinct": len(cdist), "distinct_nontrivial": len(cnt),
            "outside_domain": cskip, "wall_s": round(wall, 2),
            "labels": dict(sorted(labels.items(), key=lambda kv: (-kv[1], kv[0]))[:60]),
        }
        if check.note:
            per_check[check.name]["oracle"] = check.note
    violations, lines = 0, []
    for finding in known_findings():
        if finding.get("property") == prop and finding.get("status") == "known":
            lines.append(f"KNOWN-FINDING: property={prop} {finding['what']}")
    failures.sort(key=lambda f: (len(f[1][0]), f[0].name))
    seen_checks = set()
    for check, (case_repr, msg, history) in failures:
        if check.name in seen_checks:
            continue
        seen_checks.add(check.name)
        path = write_replay(prop, check, case_repr, msg, seed)
        if not confirm(path):
            os.unlink(os.path.join(VERIF, path))
            path = write_replay(prop, check, case_repr, msg, seed, history)
            if not confirm(path):
                print(f"note: the failure of {check.name} needs the whole run to reproduce "
                      f"(VERIF_SEED={seed})")
        violations += 1
        lines.append(f"{check.name}: {msg}")
        lines.append(f"VIOLATION property={prop} replay={path}")
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": getattr(module, "RULE", "see the oracle notes"),
            "samples": samples[:12],
            "outside_domain": skipped,
            "checks": per_check,
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - start, 2),
        "violations": violations,
    }
    if hasattr(module, "extra_evidence"):
        evidence["coverage"].update(module.extra_evidence(per_check))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8") as fh:
        json.dump(evidence, fh, indent=1)
    for line in lines:
        print(line)
    for check, err in errors:
        print(f"ERROR in check {check.name} (harness, not a verdict):\n{err}")
    print(f"{prop} {tier} seed={seed}: {evaluations} cases, {len(nontrivial)} distinct "
          f"non-trivial, {violations} violations, {evidence['wall_s']} s")
    sys.stdout.flush()
    if violations:
        return 1
    if errors or (timed_out and not failures):
        if timed_out:
            print("ERROR: hard time limit reached before all shards reported")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
