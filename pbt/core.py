"""
Core of the property-based checker.

A property module (pbt/props/cNN.py) holds a list CHECKS of Check objects.  Each Check is a
Hypothesis strategy producing *plain data* (a "case") plus an oracle function `check(case, rec)`
that drives httplint with the case and raises Violation when the property is broken.  Because
cases are plain data (literal_eval-able) a shrunk failure is saved as its repr and re-run
without Hypothesis.
"""
from __future__ import annotations

import ast
import collections
import hashlib
import os
import signal
import sys
import time
import traceback

VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT_SITE not in sys.path:
    sys.path.append(VT_SITE)  # for hypothesis (and sortedcontainers) only; appended, so never shadows

REPO = os.path.realpath(os.environ.get("HTTPLINT_REPO", "/repo"))


class Violation(AssertionError):
    """The property under test does not hold for this case."""


class StopRun(KeyboardInterrupt):
    """Time budget reached: ends the Hypothesis run (inconclusive, never a violation)."""


class Skip(Exception):
    """The case is outside the property's domain (counted, never silently)."""


class Rec:
    """Per-case recorder: labels and non-triviality."""

    __slots__ = ("labels", "nontrivial", "obs")

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self.obs = None

    def label(self, *names):
        self.labels.extend(names)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


class Check:
    def __init__(self, name, strategy, fn, n=1000, thorough=None, note="", shards=None, enum=None):
        """
        strategy: callable returning a Hypothesis strategy (lazy), or None when `enum` is given
        enum:     callable returning a list of cases to be tried exhaustively
        n:        examples in the quick tier; thorough: examples in the thorough tier
        """
        self.name, self.strategy, self.fn = name, strategy, fn
        self.n = n
        self.thorough = thorough if thorough is not None else n * 25
        self.note = note
        self.shards = shards
        self.enum = enum


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args, **details):
    if not cond:
        raise Violation((msg % args if args else msg) + told(details))


def same(got, want, what, **details):
    if got != want:
        raise Violation(f"{what}: got {short(got)} but expected {short(want)}{told(details)}")


def told(details):
    return "".join(f"; {k} = {short(v)}" for k, v in details.items())


def short(obj, n=600):
    text = repr(obj)
    return text if len(text) <= n else text[: n - 20] + f"...({len(text)} chars)"


def _raised_in_repo(tb):
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(REPO + os.sep):
            return True
    return False


CPU_LIMIT = 40  # seconds of CPU time for one case (normally milliseconds; not wall-clock time)


class TooSlow(BaseException):
    pass


def _too_slow(*_):
    raise TooSlow


def run_case(check, case, rec):
    """Run the oracle once. Exceptions that passed through the code under test are violations."""
    signal.signal(signal.SIGPROF, _too_slow)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        check.fn(case, rec)
    except (Violation, Skip):
        raise
    except TooSlow:
        raise Violation(f"the library did not finish in {CPU_LIMIT} s of CPU time") from None
    except RecursionError as exc:
        raise Violation(f"RecursionError: {exc}") from exc
    except Exception as exc:  # pylint: disable=broad-except
        if isinstance(exc, AttributeError) and type(exc.obj).__module__.split(".")[0] == "httplint" and not exc.name.startswith("_"):
            raise Violation(f"a {type(exc.obj).__name__} lacks {exc.name}") from exc
        if _raised_in_repo(exc.__traceback__):
            where = [
                f"{os.path.relpath(f.filename, REPO)}:{f.name}"
                for f in traceback.extract_tb(exc.__traceback__)
                if os.path.realpath(f.filename).startswith(REPO + os.sep)
            ]
            raise Violation(
                f"the library raised {type(exc).__name__}: {exc} (in {where[-1]})"
            ) from exc
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def digest(obj) -> bytes:
    return hashlib.blake2b(repr(obj).encode("utf-8", "backslashreplace"), digest_size=8).digest()


class ShardResult:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.nontrivial = set()
        self.distinct = set()
        self.labels = collections.Counter()
        self.samples = []
        self.failure = None  # (case_repr, message, history)
        self.error = None
        self.wall = 0.0

    def pack(self):
        return self.__dict__

    @classmethod
    def unpack(cls, d):
        r = cls()
        r.__dict__.update(d)
        return r


def run_shard(check, seed, max_examples, budget_s, want_samples=2):
    """Run one shard of one check in this process; returns ShardResult."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = 45
    res = ShardResult()
    start = time.monotonic()
    last_fail = []
    history = collections.deque(maxlen=40)
    state = {"stop": False, "failed": False}

    def body(case):
        if time.monotonic() - start > budget_s and not state["failed"]:
            state["stop"] = True
            res.labels["(time budget reached)"] += 1
            raise StopRun
        rec = Rec()
        if not state["failed"]:
            res.evaluations += 1
        try:
            run_case(check, case, rec)
        except Skip as why:
            if not state["failed"]:
                res.skipped += 1
                res.labels["skip: " + str(why)[:60]] += 1
            return
        except Violation as why:
            if not state["failed"]:
                state["history"] = list(history)
            state["failed"] = True
            last_fail[:] = [(case, str(why))]
            raise
        if not state["failed"]:
            d = digest(case)
            res.distinct.add(d)
            for lab in rec.labels:
                res.labels[lab] += 1
            if rec.nontrivial:
                if d not in res.nontrivial:
                    res.nontrivial.add(d)
                    if len(res.samples) < want_samples and len(res.nontrivial) % 7 == 1:
                        res.samples.append({"check": check.name, "case": short(case, 900)})
            history.append(case)

    try:
        if check.enum is not None:
            for case in check.enum_cases:
                body(case)
        else:
            test = hypothesis.given(check.strategy())(body)
            test = settings(
                max_examples=max_examples,
                database=None,
                deadline=None,
                derandomize=False,
                report_multiple_bugs=False,
                print_blob=False,
                phases=(Phase.generate,) if os.environ.get("PBT_NOSHRINK") else (Phase.generate, Phase.shrink),
                suppress_health_check=[
                    HealthCheck.too_slow,
                    HealthCheck.data_too_large,
                    HealthCheck.large_base_example,
                ],
            )(test)
            test = hypothesis.seed(seed)(test)
            test()
    except (Violation, StopRun):
        pass
    except BaseException as exc:  # pylint: disable=broad-except
        if not last_fail:
            res.error = "".join(traceback.format_exception(exc))[-4000:]
        # a Flaky report with a recorded failure is handled as that failure
    if last_fail:
        case, msg = last_fail[0]
        res.failure = (repr(case), msg, [repr(c) for c in state.get("history", [])])
    res.wall = time.monotonic() - start
    return res


def parse_case(text):
    return ast.literal_eval(text)
