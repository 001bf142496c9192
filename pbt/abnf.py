"""A small ABNF (RFC 5234 / 7405) engine: grammar text in, a matcher and a generator out.

Nothing here looks at httplint: the matcher computes, for a rule and a string, every position at which a
derivation of the rule can end, so recursion and ambiguity are handled exactly.
"""
import re
from functools import lru_cache

from hypothesis import strategies as st

TOKENS = re.compile(r'''
    (?P<cont>\n[ \t]+) | (?P<nl>\n+) | (?P<ws>[ \t]+) | (?P<comment>;[^\n]*) |
    (?P<str>%s"[^"]*"|%i"[^"]*"|"[^"]*") | (?P<num>%x[0-9A-Fa-f]+(?:-[0-9A-Fa-f]+|(?:\.[0-9A-Fa-f]+)+)?) |
    (?P<rep>\d*\*\d*|\d+(?=["%A-Za-z(])) | (?P<name>[A-Za-z][A-Za-z0-9-]*) | (?P<op>=/|[=/()\[\]])
''', re.X)


class Node:
    """kind: cls (frozenset of chars) | lit (text, case) | ref name | seq | alt | rep (node, lo, hi)"""
    __slots__ = ("kind", "a", "b", "c", "id")
    count = 0

    def __init__(self, kind, a=None, b=None, c=None):
        self.kind, self.a, self.b, self.c = kind, a, b, c
        Node.count += 1
        self.id = Node.count


def tokenize(text):
    out, pos = [], 0
    while pos < len(text):
        m = TOKENS.match(text, pos)
        if not m:
            raise ValueError(f"bad ABNF at {text[pos:pos + 40]!r}")
        pos = m.end()
        if m.lastgroup not in ("ws", "cont", "comment"):
            out.append((m.lastgroup, m[0]))
    return out


class Grammar:
    def __init__(self, text):
        self.rules = {}
        lines = text.split("\n")
        rule = None
        buf = {}
        for line in lines:
            if not line.strip():
                continue
            if line[0] not in " \t":
                name, eq, body = re.match(r"([A-Za-z][A-Za-z0-9-]*)\s*(=/?)\s*(.*)$", line).groups()
                rule = name.lower()
                if rule in buf:
                    raise ValueError(f"{name} defined twice")
                buf[rule] = body
            else:
                buf[rule] += " " + line.strip()
        for name, body in buf.items():
            toks = tokenize(body)
            node, rest = self._alt(toks, 0)
            if rest != len(toks):
                raise ValueError(f"trailing ABNF in {name}: {toks[rest:]}")
            self.rules[name] = node
        for name in list(self.rules):
            self._resolve(self.rules[name])
        self._strategies = {}
        self._memo_text = None

    # parsing
    def _alt(self, t, i):
        opts = []
        while True:
            node, i = self._seq(t, i)
            opts.append(node)
            if i < len(t) and t[i] == ("op", "/"):
                i += 1
                continue
            break
        if len(opts) == 1:
            return opts[0], i
        chars, rest = set(), []
        for o in opts:
            if o.kind == "cls":
                chars |= o.a
            else:
                rest.append(o)
        if chars:
            rest.append(Node("cls", frozenset(chars)))
        return (rest[0] if len(rest) == 1 else Node("alt", rest)), i

    def _seq(self, t, i):
        items = []
        while i < len(t) and t[i] not in (("op", "/"), ("op", ")"), ("op", "]")):
            node, i = self._rep(t, i)
            items.append(node)
        return (items[0] if len(items) == 1 else Node("seq", items)), i

    def _rep(self, t, i):
        if t[i][0] == "rep":
            r = t[i][1]
            if "*" in r:
                lo, hi = r.split("*")
                lo, hi = int(lo or 0), int(hi) if hi else None
            else:
                lo = hi = int(r)
            node, i = self._elem(t, i + 1)
            return Node("rep", node, lo, hi), i
        return self._elem(t, i)

    def _elem(self, t, i):
        kind, v = t[i]
        if kind == "name":
            return Node("ref", v.lower()), i + 1
        if kind == "str":
            case = v.startswith("%s")
            body = v[v.index('"') + 1:-1]
            if len(body) == 1 and (case or body.lower() == body.upper()):
                return Node("cls", frozenset(body)), i + 1
            if len(body) == 1:
                return Node("cls", frozenset([body.lower(), body.upper()])), i + 1
            return Node("lit", body, case), i + 1
        if kind == "num":
            v = v[2:]
            if "-" in v:
                lo, hi = (int(x, 16) for x in v.split("-"))
                return Node("cls", frozenset(map(chr, range(lo, hi + 1)))), i + 1
            chars = "".join(chr(int(x, 16)) for x in v.split("."))
            return (Node("cls", frozenset(chars)) if len(chars) == 1 else Node("lit", chars, True)), i + 1
        if v == "(":
            node, i = self._alt(t, i + 1)
            assert t[i] == ("op", ")"), t[i:]
            return node, i + 1
        if v == "[":
            node, i = self._alt(t, i + 1)
            assert t[i] == ("op", "]"), t[i:]
            return Node("rep", node, 0, 1), i + 1
        raise ValueError(f"unexpected {t[i]}")

    def _resolve(self, node, seen=()):
        """Rules that are a single character class are used as such; unknown names are errors."""
        if node.kind == "ref":
            if node.a not in self.rules:
                raise ValueError(f"no rule {node.a}")
        elif node.kind in ("seq", "alt"):
            for x in node.a:
                self._resolve(x)
            if node.kind == "alt":
                chars, rest = set(), []
                for x in node.a:
                    c = self._class(x)
                    if c is None:
                        rest.append(x)
                    else:
                        chars |= c
                if chars:
                    rest.append(Node("cls", frozenset(chars)))
                if len(rest) == 1 and rest[0].kind == "cls":
                    node.kind, node.a = "cls", rest[0].a
                else:
                    node.a = rest
        elif node.kind == "rep":
            self._resolve(node.a)
            c = self._class(node.a)
            if c is not None:
                node.a = Node("cls", c)

    def _class(self, node, depth=0):
        if depth > 9:
            return None
        if node.kind == "cls":
            return node.a
        if node.kind == "ref":
            return self._class(self.rules[node.a], depth + 1)
        if node.kind == "alt":
            out = set()
            for x in node.a:
                c = self._class(x, depth + 1)
                if c is None:
                    return None
                out |= c
            return frozenset(out)
        return None

    # matching
    def _ends(self, node, text, pos, memo):
        kind = node.kind
        if kind == "cls":
            return (pos + 1,) if pos < len(text) and text[pos] in node.a else ()
        if kind == "lit":
            part = text[pos:pos + len(node.a)]
            return (pos + len(node.a),) if (part == node.a if node.b else part.lower() == node.a.lower()) else ()
        key = (node.id, pos)
        got = memo.get(key)
        if got is not None:
            return got
        memo[key] = ()  # no left recursion in these grammars
        if kind == "ref":
            out = self._ends(self.rules[node.a], text, pos, memo)
        elif kind == "alt":
            acc = set()
            for x in node.a:
                acc.update(self._ends(x, text, pos, memo))
            out = tuple(acc)
        elif kind == "seq":
            cur = {pos}
            for x in node.a:
                nxt = set()
                for p in cur:
                    nxt.update(self._ends(x, text, p, memo))
                cur = nxt
                if not cur:
                    break
            out = tuple(cur)
        else:
            lo, hi = node.b, node.c
            if node.a.kind == "cls":
                chars, end = node.a.a, pos
                while end < len(text) and text[end] in chars and (hi is None or end - pos < hi):
                    end += 1
                out = tuple(range(pos + lo, end + 1))
            else:
                acc, cur, n, seen = set(), {pos}, 0, set()
                if lo == 0:
                    acc.add(pos)
                while cur and (hi is None or n < hi):
                    n += 1
                    nxt = set()
                    for p in cur:
                        nxt.update(self._ends(node.a, text, p, memo))
                    if n >= lo:
                        if hi is None:
                            nxt -= acc  # from here only new positions can lead anywhere new
                        acc |= nxt
                    elif nxt == cur:  # the item matches nothing
                        acc |= nxt
                        break
                    cur = nxt
                out = tuple(acc)
        memo[key] = out
        return out

    def matches(self, rule, text):
        return len(text) in self._ends(self.rules[rule.lower()], text, 0, {})

    # generating
    def strategy(self, rule):
        return self._strat(Node("ref", rule.lower()))

    def _strat(self, node):
        if node.kind == "cls":
            chars = sorted(node.a, key=lambda c: (not (c.isascii() and c.isalnum()), c))
            special = [c for c in chars if not (c.isascii() and c.isalnum())]
            if len(chars) > 20 and special:
                return st.one_of(st.sampled_from("".join(c for c in chars if c.isascii() and c.isalnum()) or chars), st.sampled_from(chars), st.sampled_from([special[0], special[-1], chars[0], chars[-1]]))
            return st.sampled_from(chars)
        if node.kind == "lit":
            if node.b or node.a.upper() == node.a.lower():
                return st.just(node.a)
            return st.sampled_from([node.a, node.a, node.a.lower(), node.a.upper(), node.a.swapcase()])
        if node.kind == "ref":
            if node.a not in self._strategies:
                self._strategies[node.a] = st.deferred(lambda: self._strat(self.rules[node.a]))
            return self._strategies[node.a]
        if node.kind == "alt":
            return st.one_of([self._strat(x) for x in node.a])
        if node.kind == "seq":
            return st.tuples(*[self._strat(x) for x in node.a]).map("".join)
        lo, hi = node.b, node.c
        item = self._strat(node.a)
        if hi == 1 and lo == 0:
            return st.one_of(st.just(""), item)
        if hi is not None and hi <= 12:
            return st.sampled_from([lo, hi, hi, lo] + list(range(lo, hi + 1))).flatmap(lambda n: st.lists(item, min_size=n, max_size=n)).map("".join)
        return st.lists(item, min_size=lo, max_size=lo + 4).map("".join)

    # enumerating
    def text(self, node, full, busy=()):
        """A plain derivation: optional parts left out, or (full) there once."""
        if node.kind == "cls":
            return min(node.a, key=lambda c: (c not in "a1", not (c.isascii() and c.isalnum()), c))
        if node.kind == "lit":
            return node.a
        if node.kind == "ref":
            return self.text(self.rules[node.a], full and busy.count(node.a) < 1, busy + (node.a,))
        if node.kind == "seq":
            return "".join(self.text(x, full, busy) for x in node.a)
        if node.kind == "alt":
            plain = [x for x in node.a if not self._loops(x, busy)]
            return min((self.text(x, full, busy) for x in plain), key=lambda t: (not t, len(t), t))
        return self.text(node.a, full, busy) * (node.b or (1 if full and not self._loops(node.a, busy) else 0))

    def _loops(self, node, busy):
        """Whether deriving this comes back to a rule being derived (optional parts apart)."""
        if node.kind == "ref":
            return node.a in busy or self._loops(self.rules[node.a], busy + (node.a,))
        if node.kind == "seq":
            return any(self._loops(x, busy) for x in node.a)
        if node.kind == "alt":
            return all(self._loops(x, busy) for x in node.a)
        return node.kind == "rep" and bool(node.b) and self._loops(node.a, busy)

    def edges(self, rule):
        """Texts at, and just beyond, every choice the grammar makes: for each class of characters its first and
        last ones and their neighbours; for each repetition the counts at and beyond its bounds; for each sequence
        every part left out, doubled or swapped with the next; for each word, its letters' cases and one fewer."""
        out = {}
        for full in (False, True):
            seen = set()

            def plain(node):
                return self.text(node, full)

            def few(node):
                got = {"", self.text(node, False), self.text(node, True), self.text(node, True) * 2}
                while node.kind == "ref":
                    node = self.rules[node.a]
                if node.kind == "rep":
                    one = self.text(node.a, True)
                    got.update(one * k for k in self._counts(node))
                    if node.a.kind == "cls" and len(node.a.a) < 4:
                        got.update(node.a.a)
                return got

            def emit(text):
                out.setdefault(text)

            def visit(node, pre, suf):
                if node.kind == "ref":
                    node = self.rules[node.a]
                if node.id in seen or len(pre) + len(suf) > 120:
                    return
                seen.add(node.id)
                emit(pre + plain(node) + suf)
                if node.kind == "cls":
                    for i in range(256):
                        inside = chr(i) in node.a
                        if any(0 <= j < 256 and (chr(j) in node.a) != inside for j in (i - 1, i + 1)) or i in (0, 255):
                            emit(pre + chr(i) + suf)
                elif node.kind == "lit":
                    t = node.a
                    for v in (t.lower(), t.upper(), t[1:], t[:-1], t[:1] + "_" + t[2:], t + t[-1:]):
                        emit(pre + v + suf)
                elif node.kind == "ref":
                    visit(node, pre, suf)
                elif node.kind == "alt":
                    for x in node.a:
                        visit(x, pre, suf)
                elif node.kind == "rep":
                    one = self.text(node.a, full) or self.text(node.a, True)
                    for k in self._counts(node):
                        emit(pre + one * k + suf)
                    lo = max(node.b - 1, 0)
                    visit(node.a, pre + one * lo, suf)
                    if node.c is None or node.c >= lo + 3:  # and between others
                        kinds = node.a.a if node.a.kind == "alt" else [node.a]
                        for x in kinds:
                            for y in kinds:
                                emit(pre + self.text(x, True) + self.text(y, True) + self.text(x, False) + suf)
                else:
                    parts = [plain(x) for x in node.a]
                    for i, x in enumerate(node.a):
                        before, after = "".join(parts[:i]), "".join(parts[i + 1:])
                        for v in few(x):
                            emit(pre + before + v + after + suf)
                        if i + 1 < len(parts):
                            emit(pre + before + parts[i + 1] + parts[i] + "".join(parts[i + 2:]) + suf)
                        visit(x, pre + before, after + suf)

            visit(Node("ref", rule.lower()), "", "")
        return list(out)

    @staticmethod
    def _counts(node):
        lo, hi = node.b, node.c
        some = {lo - 1, lo, lo + 1, lo + 2, lo + 3} | ({hi - 1, hi, hi + 1} if hi is not None else {12})
        return sorted(k for k in some if k >= 0)


EXTRA = "\t \"'\\,;:/?#[]@!$&()*+=%{}<>|^`~-._0aZ\x00\x0b\x0c\x1f\x7f\x80\xa0\xb5\xff9fgG1"


@st.composite
def mutated(draw, base):
    """A value of base with a few small edits (possibly none)."""
    text = draw(base)
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 1, 2, 3]))):
        how = draw(st.integers(0, 7))
        i = draw(st.integers(0, len(text)))
        if how == 0 or not text:
            text = text[:i] + draw(st.sampled_from(EXTRA)) + text[i:]
        elif how == 1:
            text = text[:i] + text[i + 1:]
        elif how == 2:
            text = text[:i] + draw(st.sampled_from(EXTRA)) + text[i + 1:]
        elif how == 3:
            text = text[:i] + text[max(0, i - 1):i] + text[i:]
        elif how == 4:
            text = text[:i]
        elif how == 5:
            j = draw(st.integers(0, len(text)))
            text = text[:i] + text[min(i, j):max(i, j)] + text[i:]
        elif how == 6:
            text = text[:i] + (text[i:i + 1].swapcase() if text[i:i + 1].isascii() else "A") + text[i + 1:]
        else:
            text = draw(base)[: draw(st.integers(0, 6))] + text[i:]
    return text
