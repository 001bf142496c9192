"""Messages the checks of all properties are about, for properties that are about any message."""
import functools
import importlib

from hypothesis import strategies as st

from pbt import gen, lib

# (property, check): those that lint messages that are of interest to others, and small
SOURCES = [(f"c{n:02}", None) for n in (6, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 25, 26, 28, 29, 30, 31, 32, 34, 35, 36, 37)] + [("c41", None)] * 8


class Found(BaseException):
    pass


class Quiet:
    def __getattr__(self, name):
        return lambda *a, **kw: None


def message_of(fn, case):
    """The first message that a check lints (or None)."""
    got = []

    def take(m):
        got.append(m)
        raise Found

    saved = lib.make, lib.lint
    lib.make = lib.lint = take
    try:
        fn(case, Quiet())
    except Found:
        return got[0]
    except Exception:  # pylint: disable=broad-except
        return None
    finally:
        lib.make, lib.lint = saved
    return None


@functools.lru_cache(maxsize=None)
def checks(module):
    return [c for c in importlib.import_module("pbt.props." + module).CHECKS if c.strategy]


@st.composite
def from_checks(draw, module=None):
    module = module or draw(st.sampled_from(SOURCES))[0]
    check = draw(st.sampled_from(checks(module)))
    m = message_of(check.fn, draw(check.strategy()))
    if m is None or len(m["headers"]) > 60 or sum(map(len, m.get("chunks", ()))) > 20000 or sum(len(v) for _, v in m["headers"]) > 30000:
        return draw(gen.message())
    return m


def messages():
    return from_checks()


@st.composite
def several(draw, lo=2, hi=4):
    """Messages that are about the same."""
    module = draw(st.sampled_from(SOURCES))[0]
    return draw(st.lists(from_checks(module), min_size=lo, max_size=hi))
