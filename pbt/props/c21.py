"""C21: the same message always gives the same results, whatever else happens."""
import asyncio
import os
import subprocess
import sys
import threading

from hypothesis import strategies as st

from httplint.i18n import set_locale
from pbt import gen, lib, pool, scenarios
from pbt.core import Check, require, same
from pbt.worker import snapshot

RULE = "a case is several messages and a schedule; non-trivial when at least two of the messages have three or more findings"
ASSUMPTIONS = ["thread schedules are those the interpreter gives with a very short switch interval, not an exhaustive set"]
S = st.sampled_from
LOCALES = ["en", "fr", "ja", "zh", "es", "de"]

ANY = st.one_of(gen.message(), gen.message(), scenarios.caching(), scenarios.cors(), scenarios.security(), scenarios.conditional(), scenarios.status(), scenarios.charset(), scenarios.raw())


@st.composite
def groups(draw, lo=2, hi=4):
    if not draw(st.integers(0, 2)):
        return draw(pool.several(lo, hi))
    ms = draw(st.lists(ANY, min_size=lo, max_size=hi))
    # often the same fields in more than one of them, where leaked state would show
    if draw(st.booleans()):
        i = draw(st.integers(0, len(ms) - 1))
        for j in range(len(ms)):
            if j != i and ms[j]["kind"] == ms[i]["kind"]:
                names = [n for n, _ in ms[i]["headers"]][:4]
                extra = []
                for n in names:
                    extra.append((n, draw(gen.field_value(lib_canonical(n)))))
                ms[j] = dict(ms[j], headers=list(ms[j]["headers"])[:4] + extra)
    return ms


def lib_canonical(name):
    from pbt import spec
    return spec.canonical(spec.wire(name))


def snap(l):
    return (lib.note_keys(l), lib.render(l), lib.results(l))


def busy(snaps):
    return sum(len(s[0]) >= 3 for s in snaps) >= 2


def diff(got, want, what):
    for part, a, b in zip(("findings", "rendered text", "results"), got, want):
        same(a, b, f"{part} {what}")


# --- one after another -------------------------------------------------------------------------

def repeats(ms, rec):
    first = [snapshot(m) for m in ms]
    again = [snapshot(m) for m in ms]
    back = [snapshot(m) for m in reversed(ms)][::-1]
    for i in range(len(ms)):
        diff(again[i], first[i], f"of message {i} the second time, after {len(ms)} others")
        diff(back[i], first[i], f"of message {i} in another order")
    rec.nt(busy(first))


# --- interleaved call by call --------------------------------------------------------------------

def queued(m):
    """A linter for m, and the calls to make."""
    l = lib.make(m)
    q = []
    rel = m.get("related")
    if rel is not None:
        other = lib.make(rel)
        if m["kind"] == "request":
            l.response, other.request = other, l
        else:
            l.request, other.response = other, l
        q += lib.steps(other, rel)
        l._keep = other  # pylint: disable=protected-access
    q += lib.steps(l, m)
    return l, q


@st.composite
def schedules(draw):
    ms = draw(groups())
    n = len(ms)
    return {"ms": ms, "order": draw(st.lists(st.integers(0, n - 1), max_size=40)), "late": draw(st.booleans())}


def interleaved(case, rec):
    ms = case["ms"]
    alone = [snapshot(m) for m in ms]
    linters, queues = [], []
    for m in ms:
        l, q = queued(m)
        linters.append(l)
        queues.append(q)
    turns = 0
    for i in case["order"] + [j for j in range(len(ms)) for _ in queues[j]]:
        if queues[i]:
            queues[i].pop(0)()
            turns += 1
            if not queues[i] and not case["late"]:
                diff(snap(linters[i]), alone[i], f"of message {i} of {len(ms)}, interleaved")
    for i, l in enumerate(linters):
        diff(snap(l), alone[i], f"of message {i} of {len(ms)}, interleaved, at the end")
    rec.nt(busy(alone) and turns >= 4)


# --- in threads ------------------------------------------------------------------------------------

def threads(ms, rec):
    alone = [snapshot(m) for m in ms]
    out = {}
    barrier = threading.Barrier(len(ms))

    def work(i):
        barrier.wait()
        try:
            for k in range(3):
                out[i, k] = snapshot(ms[i])
        except Exception as why:  # pylint: disable=broad-except
            out[i, "error"] = repr(why)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        pool = [threading.Thread(target=work, args=(i,)) for i in range(len(ms))]
        for t in pool:
            t.start()
        for t in pool:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for i in range(len(ms)):
        require((i, "error") not in out, "message %d raised in a thread: %s", i, out.get((i, "error")))
        for k in range(3):
            diff(out[i, k], alone[i], f"of message {i} in one of {len(ms)} threads")
    rec.nt(busy(alone))


# --- each in its own locale --------------------------------------------------------------------------

@st.composite
def tongues(draw):
    ms = draw(groups(2, 4))
    return {"ms": ms, "locales": draw(st.lists(S(LOCALES), min_size=len(ms), max_size=len(ms))), "how": draw(S(["threads", "tasks"]))}


def own_locale(case, rec):
    """Messages linted and rendered in several locales at once."""
    ms, locales = case["ms"], case["locales"]
    alone = []
    for m, loc in zip(ms, locales):
        with set_locale(loc):
            alone.append(snapshot(m))
    out = {}
    if case["how"] == "threads":
        barrier = threading.Barrier(len(ms))

        def work(i):
            try:
                with set_locale(locales[i]):
                    barrier.wait(60)
                    out[i] = snapshot(ms[i])
            except Exception as why:  # pylint: disable=broad-except
                out[i] = repr(why)

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            pool_ = [threading.Thread(target=work, args=(i,)) for i in range(len(ms))]
            for t in pool_:
                t.start()
            for t in pool_:
                t.join()
        finally:
            sys.setswitchinterval(old)
    else:
        async def one(i):
            with set_locale(locales[i]):
                linter, queue = queued(ms[i])
                for step in queue:
                    await asyncio.sleep(0)
                    step()
                await asyncio.sleep(0)
                out[i] = snap(linter)

        async def every():
            await asyncio.gather(*[one(i) for i in range(len(ms))])

        asyncio.run(every())
    for i in range(len(ms)):
        require(not isinstance(out[i], str), "message %d raised: %s", i, out[i])
        diff(out[i], alone[i], f"of message {i}, in {locales[i]} while others are in {locales}, in {case['how']}")
    rec.nt(busy(alone) and len(set(locales)) > 1)
    rec.label(case["how"])


# --- in fresh processes ------------------------------------------------------------------------------

@st.composite
def processes(draw):
    return {"ms": draw(st.lists(st.one_of(ANY, pool.messages(), pool.messages()), min_size=25, max_size=40)), "seed": draw(st.integers(1, 2**32 - 1)), "tz": draw(S(["UTC", "America/New_York", "Asia/Kolkata", "XXX-14"]))}


def fresh(case, rec):
    env = dict(os.environ, PYTHONHASHSEED=str(case["seed"]), TZ=case["tz"])
    got = subprocess.run([sys.executable, "-m", "pbt.worker"], input=repr(case["ms"]), capture_output=True, text=True, env=env, check=False, cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    want = [ascii(snapshot(m)) for m in case["ms"]]
    lines = got.stdout.splitlines()
    require(got.returncode == 0 and len(lines) == len(want), "a fresh process failed: %s", got.stderr[-600:])
    for i, (a, b) in enumerate(zip(lines, want)):
        if a != b:
            at = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            require(False, "message %r gives other results with hash seed %d and time zone %s: ...%s... rather than ...%s...", case["ms"][i]["headers"], case["seed"], case["tz"], a[max(0, at - 80): at + 120], b[max(0, at - 80): at + 120])
    rec.nt(len(want) > 3)


CHECKS = [
    Check("repeats", groups, repeats, n=2500, note="linting again, and in another order"),
    Check("interleaved", schedules, interleaved, n=2500, note="calls to several linters interleaved by a generated schedule"),
    Check("threads", lambda: groups(3, 5), threads, n=500, note="concurrent threads, switching every microsecond"),
    Check("locales", tongues, own_locale, n=1200, note="messages linted at once in several locales, in threads or in asyncio tasks"),
    Check("processes", processes, fresh, n=64, note="fresh processes with other hash seeds and time zones"),
]
