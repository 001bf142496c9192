"""C13: storability."""
import itertools

from pbt import cachemodel, lib
from pbt.core import Check, require, same

RULE = "a case is a response, perhaps with its request; non-trivial when something other than the defaults decides the verdict (a directive, Vary: *, a method, Authorization or a status that isn't heuristically cacheable)"
ASSUMPTIONS = ["no-cache and private are generated without field names", "a request without a method is taken to have a cacheable one"]

VERDICT = {"STORE_METHOD_UNCACHEABLE", "STORE_NO_STORE", "STORE_PRIVATE_CC", "STORE_PRIVATE_AUTH", "STORE_PUBLIC_AUTH", "STORE_STORABLE", "STORE_STORABLE_SHARED_ONLY", "STORE_UNSTORABLE"}
MEANS = {  # what each note says about (private, shared)
    "STORE_METHOD_UNCACHEABLE": (False, False), "STORE_NO_STORE": (False, False), "STORE_UNSTORABLE": (False, False), "STORE_PRIVATE_CC": (True, False), "STORE_PRIVATE_AUTH": (True, False),
    "STORE_PUBLIC_AUTH": (True, True), "STORE_STORABLE": (True, True), "STORE_STORABLE_SHARED_ONLY": (False, True),
}


def expected(c):
    """The verdict note (None for Vary: *)."""
    d, r = cachemodel.directives(c), c["request"]
    if c["vary"] is not None and "*" in [v.strip() for v in c["vary"].split(",")]:
        return None
    if r is not None and r["topline"] and r["method"] not in cachemodel.SAFE_METHODS:
        return "STORE_METHOD_UNCACHEABLE"
    if "no-store" in d:
        return "STORE_NO_STORE"
    if "private" in d:
        return "STORE_PRIVATE_CC"
    private, shared = cachemodel.storable(c)
    if not private:
        return "STORE_STORABLE_SHARED_ONLY" if shared or "s-maxage" in d else "STORE_UNSTORABLE"
    if r is not None and r["auth"]:
        return "STORE_PUBLIC_AUTH" if shared else "STORE_PRIVATE_AUTH"
    return "STORE_STORABLE"


def check(c, rec):
    m = cachemodel.build(c)
    l = lib.lint(m)
    d = cachemodel.directives(c)
    desc = f"status {c['status']}, Cache-Control {c['cc']}, Expires {c['expires']!r}, Vary {c['vary']!r}, request {c['request']}"
    private, shared = cachemodel.storable(c)
    same((l.caching.store_private, l.caching.store_shared), (private, shared), f"{desc}: whether private and shared caches may store")
    mine = [n for n in l.notes if type(n).__name__ in VERDICT]
    theirs = [n for n in l.request.notes if type(n).__name__ in VERDICT] if l.request is not None else []
    names = [type(n).__name__ for n in mine + theirs]
    want = expected(c)
    same(names, [want] if want else [], f"{desc}: storability notes")
    if want:
        same(MEANS[want], (private, shared), f"{desc}: meaning of {want}")
        same(bool(theirs), want == "STORE_METHOD_UNCACHEABLE", f"{desc}: whether the note is on the request")
        n = (mine + theirs)[0]
        if want == "STORE_METHOD_UNCACHEABLE":
            require(c["request"]["method"] in n.summary, "%s: the note doesn't name the method: %r", desc, n.summary)
        if want == "STORE_PUBLIC_AUTH":
            require(n.vars["directive"] in d and n.vars["directive"] in ("public", "must-revalidate", "s-maxage"), "%s: the note credits %r", desc, n.vars["directive"])
    same(lib.names(l).count("STORE_PRIVATE_PUBLIC_CONFLICT"), int(want == "STORE_PRIVATE_CC" and "public" in d), f"{desc}: private/public conflicts")
    other = [x for x in lib.names(l) if x.startswith(("FRESHNESS", "STALE", "FRESH_", "CURRENT_AGE", "STORE_PUBLIC_UNN", "CC_AND"))]
    if not private and not shared:
        same(other, [], f"{desc}: caching notes for a response that can't be stored")
    rec.nt(want not in ("STORE_STORABLE",) or bool(d))
    rec.label(str(want))


def table(tier):
    """The product of the facts that decide."""
    out = []
    reqs = [None] + [{"method": me, "auth": au, "start": None, "topline": True} for me in ("GET", "HEAD", "POST") for au in (None, "Authorization")]
    flags = ["no-store", "private", "public", "must-revalidate", "s-maxage=5", "max-age=5"]
    for r in reqs:
        for status in (200, 302, 501, 404, 307, 206, 299):
            for k in range(0, 64):
                cc = [f for i, f in enumerate(flags) if k >> i & 1]
                for exp in (None, "0"):
                    for vary in (None, "*"):
                        if vary and (k % 8 or status != 200):
                            continue
                        out.append({"status": status, "cc": cc, "cc_split": 0, "start": None, "date": None, "expires": exp, "age": None, "lm": None, "etag": None, "vary": vary, "request": r, "order": 0, "extra": []})
    return out


CHECKS = [
    Check("table", None, check, enum=table, note="every combination of six directives, seven statuses, Expires, methods, Authorization and Vary: *"),
    Check("responses", cachemodel.responses, check, n=8000, note="generated responses against RFC 9111 section 3"),
]
