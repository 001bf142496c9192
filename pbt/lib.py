"""
Driving httplint with plain-data messages, and comparable snapshots of what it found.

A message ("msg") is a dict:
  kind:     "request" | "response"
  top:      (method, target, version) or (version, status, phrase-or-None), all bytes; None = not fed
  headers:  [(bytes, bytes), ...]
  chunks:   [bytes, ...]              (default [])
  trailers: [(bytes, bytes), ...]     (default None)
  complete: bool                      (default True)
  start, no_content, head, base:      constructor/attribute options (optional)
  related:  another msg (linted first and attached both ways), optional
"""
from __future__ import annotations

import enum

import pbt.core  # noqa: F401  (sets sys.path)

import httplint
from httplint import HttpRequestLinter, HttpResponseLinter


def msg(kind="response", headers=(), top="default", chunks=(), **kw):
    if top == "default":
        top = (b"HTTP/1.1", b"200", b"OK") if kind == "response" else (b"GET", b"http://example.com/", b"HTTP/1.1")
    out = {"kind": kind, "top": top, "headers": list(headers), "chunks": list(chunks)}
    out.update(kw)
    return out


def resp(headers=(), status=200, **kw):
    return msg("response", headers, top=(b"HTTP/1.1", str(status).encode(), b"Phrase"), **kw)


def req(headers=(), method=b"GET", uri=b"http://example.com/", **kw):
    return msg("request", headers, top=(method, uri, b"HTTP/1.1"), **kw)


def make(m):
    """Construct the linter for m (nothing fed yet)."""
    kw = {}
    if m.get("start") is not None:
        kw["start_time"] = m["start"]
    if "no_content" in m:
        kw["no_content"] = m["no_content"]
    return HttpRequestLinter(**kw) if m["kind"] == "request" else HttpResponseLinter(**kw)


def related(linter):
    """The message that linter's is the request for, or the response to."""
    return linter.request if isinstance(linter, HttpResponseLinter) else linter.response


def steps(linter, m):
    """The calls that feed m to linter, as a list of thunks in order."""
    out = []
    if m.get("base") is not None:
        out.append(lambda: setattr(linter, "base_uri", m["base"]))
    if m.get("head"):
        out.append(lambda: setattr(linter, "is_head_response", True))
    if m.get("top") is not None:
        if m["kind"] == "request":
            out.append(lambda: linter.process_request_topline(*m["top"]))
        else:
            out.append(lambda: linter.process_response_topline(*m["top"]))
    out.append(lambda: linter.process_headers(list(m["headers"])))
    for chunk in m.get("chunks", ()):
        out.append(lambda c=chunk: linter.feed_content(c))
    trailers = m.get("trailers")
    if trailers is None:
        out.append(lambda: linter.finish_content(m.get("complete", True)))
    else:
        out.append(lambda: linter.finish_content(m.get("complete", True), list(trailers)))
    return out


def lint(m):
    """Lint m (and its related message first, if any); returns the linter."""
    linter = make(m)
    related = m.get("related")
    if related is not None:
        other = make(related)
        if m["kind"] == "request":
            linter.response, other.request = other, linter
        else:
            linter.request, other.response = other, linter
        for step in steps(other, related):
            step()
    for step in steps(linter, m):
        step()
    return linter


def names(linter):
    """Note class names in order, top level only."""
    return [type(n).__name__ for n in linter.notes]


def all_notes(notes):
    for n in notes:
        yield n
        yield from all_notes(n.subnotes)


def plain(obj, depth=0):
    """A comparable, order-preserving plain rendering of a parsed value."""
    if depth > 40:
        return "..."
    if isinstance(obj, enum.Enum):
        return f"<{type(obj).__name__}.{obj.name}>"
    if isinstance(obj, bool) or obj is None:
        return obj
    if isinstance(obj, (int, float)):
        return obj if obj == obj else "nan"
    if type(obj) in (str, bytes):
        return obj
    if isinstance(obj, str):
        return (type(obj).__name__, str.__str__(obj))
    if isinstance(obj, bytes):
        return (type(obj).__name__, bytes(obj))
    if isinstance(obj, (list, tuple)):
        return [plain(v, depth + 1) for v in obj]
    if isinstance(obj, (set, frozenset)):
        return ("set", sorted((plain(v, depth + 1) for v in obj), key=repr))
    if isinstance(obj, dict):
        return ("dict", [(plain(k, depth + 1), plain(v, depth + 1)) for k, v in obj.items()])
    text = str(obj)
    if " at 0x" in text:
        return f"<{type(obj).__name__}>"
    return (type(obj).__name__, text)


def note_key(n, subject=True, variables=True):
    return (
        type(n).__name__,
        n.subject if subject else None,
        n.level.name,
        n.category.name,
        plain(dict(sorted(n.vars.items()))) if variables else None,
        tuple(note_key(s, subject, variables) for s in n.subnotes),
    )


def note_keys(linter, subject=True, variables=True):
    return [note_key(n, subject, variables) for n in linter.notes]


def parsed(linter):
    return (
        plain(dict(linter.headers.parsed)),
        plain(dict(linter.trailers.parsed)),
    )


def results(linter):
    """Everything the API exposes besides the notes."""
    out = {
        "parsed": parsed(linter),
        "text": (linter.headers.text, linter.trailers.text),
        "content_length": linter.content_length,
        "content_hash": linter.content_hash,
        "content_sample": linter.content_sample,
        "decoded_length": linter.decoded.length,
        "decoded_hash": linter.decoded.hash,
        "character_encoding": linter.character_encoding,
        "complete": linter.complete,
    }
    if isinstance(linter, HttpResponseLinter):
        c = linter.caching
        out["caching"] = (c.age, c.store_private, c.store_shared,
                          c.freshness_lifetime_private, c.freshness_lifetime_shared)
        out["status"] = (linter.status_code, linter.status_phrase)
    else:
        out["uri"] = (linter.method, linter.iri, linter.uri)
    return out


def render(linter):
    return [(n.summary, str(n.detail)) for n in all_notes(linter.notes)]
