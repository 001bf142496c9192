"""C14: age, freshness and staleness."""
from pbt import cachemodel, lib
from pbt.core import Check, Skip, require, same

from httplint.util import relative_time

RULE = "a case is a storable response; non-trivial when it has explicit freshness, an Age, or a revalidation or stale-* directive"
ASSUMPTIONS = ["Expires counts only when the time of the response is known", "no-cache is generated without field names", "relative times are compared as worded by httplint.util.relative_time, from independently computed seconds"]

MAX = cachemodel.MAX
NOTES = {"CURRENT_AGE", "FRESHNESS_NO_CACHE", "FRESHNESS_NO_CACHE_NO_VALIDATOR", "FRESHNESS_FRESH", "FRESHNESS_SHARED_PRIVATE", "FRESHNESS_STALE_ALREADY", "FRESHNESS_HEURISTIC", "FRESHNESS_NONE", "CC_AND_EXPIRES", "STORE_PUBLIC_UNNECESSARY",
         "STALE_SERVABLE", "STALE_IF_ERROR", "STALE_WHILE_REVALIDATE", "FRESH_MUST_REVALIDATE", "STALE_MUST_REVALIDATE", "FRESH_PROXY_REVALIDATE", "STALE_PROXY_REVALIDATE"}


def words(seconds):
    return str(relative_time(seconds, 0, 0))


def model(c):
    """(age, private lifetime, shared lifetime, [(note, {variables})])"""
    d, r = cachemodel.directives(c), c["request"]
    # RFC 9111 section 4.2.3
    age_value = min(c["age"], MAX) if cachemodel.usable(c["age"]) else 0
    date = c["date"] if cachemodel.usable(c["date"]) else None
    apparent = max(0, int(c["start"]) - date) if c["start"] is not None and date is not None else 0
    delay = c["start"] - r["start"] if c["start"] is not None and r is not None and r["start"] is not None else 0
    age = max(apparent, age_value + delay)
    notes = []
    if age >= 1:
        notes.append(("CURRENT_AGE", {"age": words(age)}))
    # section 4.2.1
    private = shared = 0
    explicit = False
    if c["expires"] is not None and c["start"] is not None:
        explicit = True
        expires = c["expires"] if cachemodel.usable(c["expires"]) else 0
        private = shared = expires - (date if date is not None else int(c["start"]))
    if "max-age" in d:
        explicit = True
        private = shared = min(d["max-age"], MAX)
    if "s-maxage" in d:
        explicit = True
        shared = min(d["s-maxage"], MAX)
    lifetimes = (private, shared)
    if "no-cache" in d:
        notes.append(("FRESHNESS_NO_CACHE" if c["etag"] is not None or isinstance(c["lm"], int) else "FRESHNESS_NO_CACHE_NO_VALIDATOR", {}))
        return age, lifetimes, notes
    fresh, shared_fresh = private > age, shared > age
    if explicit:
        if private != shared:
            notes.append(("FRESHNESS_SHARED_PRIVATE", {"private_status": "fresh" if fresh else "stale", "shared_status": "fresh" if shared_fresh else "stale", "fresh_lifetime": words(int(private)), "share_lifetime": words(int(shared)),
                                                       "fresh_left": words(abs(int(private - age))), "share_left": words(abs(int(shared - age)))}))
        else:
            notes.append(("FRESHNESS_FRESH" if fresh else "FRESHNESS_STALE_ALREADY", {"freshness_lifetime": words(int(private)), "freshness_left": words(abs(int(private - age))), "current_age": words(age)}))
        if "max-age" in d and c["expires"] is not None:
            notes.append(("CC_AND_EXPIRES", {}))
    elif c["status"] in cachemodel.HEURISTIC:
        notes.append(("FRESHNESS_HEURISTIC", {}))
    else:
        notes.append(("FRESHNESS_NONE", {}))
    if "public" in d and (explicit or c["status"] in cachemodel.HEURISTIC):
        notes.append(("STORE_PUBLIC_UNNECESSARY", {}))
    # section 4.2.4, RFC 5861
    if "stale-while-revalidate" in d:
        notes.append(("STALE_WHILE_REVALIDATE", {}))
    if "stale-if-error" in d:
        notes.append(("STALE_IF_ERROR", {}))
    elif "must-revalidate" in d:
        if fresh:
            notes.append(("FRESH_MUST_REVALIDATE", {}))
        elif explicit:
            notes.append(("STALE_MUST_REVALIDATE", {}))
    elif "proxy-revalidate" in d or "s-maxage" in d:
        if shared_fresh:
            notes.append(("FRESH_PROXY_REVALIDATE", {}))
        elif explicit:
            notes.append(("STALE_PROXY_REVALIDATE", {}))
    else:
        notes.append(("STALE_SERVABLE", {}))
    return age, lifetimes, notes


def check(c, rec):
    l = lib.lint(cachemodel.build(c))
    if cachemodel.storable(c) == (False, False):
        raise Skip("not storable")
    desc = f"response at {c['start']} with status {c['status']}, Cache-Control {c['cc']}, Date {c['date']!r}, Expires {c['expires']!r}, Age {c['age']!r}, Last-Modified {c['lm']}, ETag {c['etag']}, request {c['request']}"
    age, lifetimes, want = model(c)
    same(l.caching.age, age, f"{desc}: current age")
    same((l.caching.freshness_lifetime_private, l.caching.freshness_lifetime_shared), lifetimes, f"{desc}: private and shared freshness lifetime")
    got = [n for n in l.notes if type(n).__name__ in NOTES]
    same([type(n).__name__ for n in got], [n for n, _ in want], f"{desc}: caching notes")
    for n, (name, values) in zip(got, want):
        same({k: str(n.vars.get(k)) for k in values}, values, f"{desc}: what {name} says")
        for v in values.values():
            if name in ("CURRENT_AGE",):
                require(v in n.summary, "%s: %s doesn't show %r: %r", desc, name, v, n.summary)
    rec.nt(bool(cachemodel.directives(c)) or c["age"] is not None or c["expires"] is not None)
    rec.label(*[n for n, _ in want])


def boundaries(tier):
    """Around the point at which the response becomes stale."""
    out = []
    for status in (200, 302):
        for life in (0, 1, 2, 60, MAX, MAX + 1):
            for delta in (-1, 0, 1):
                for how in ("max-age", "s-maxage", "expires", "both"):
                    for via in ("age", "date"):
                        for flags in ([], ["must-revalidate"], ["proxy-revalidate"], ["stale-if-error=1"], ["public", "stale-while-revalidate=1"], ["no-cache"], ["private"]):
                            t = min(life, MAX) + delta
                            if t < 0 or (how == "expires" and life > 10**6):
                                continue
                            cc = list(flags)
                            if how in ("max-age", "both"):
                                cc.append(f"max-age={life}")
                            if how == "s-maxage":
                                cc.append(f"s-maxage={life}")
                            if how == "both":
                                cc.append("s-maxage=61")
                            date = cachemodel.NOW - (t if via == "date" and t < 10**8 else 0)
                            out.append({"status": status, "cc": cc, "cc_split": 0, "start": float(cachemodel.NOW), "date": date, "expires": date + life if how == "expires" else None, "age": t if via == "age" else None,
                                        "lm": None, "etag": None, "vary": None, "request": None, "order": 0, "extra": []})
    return out


CHECKS = [
    Check("boundaries", None, check, enum=boundaries, note="ages just below, at and above each freshness lifetime"),
    Check("responses", cachemodel.responses, check, n=16000, note="generated responses against RFC 9111 section 4.2"),
]
