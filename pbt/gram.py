"""Grammars as JSON data: generate them, build them with mo_parsing, interpret them.

Spec nodes (lists):
  ["lit", s]                ["word", init, body|None, min, max|None]
  ["char", chars]           ["kw", s]         ["clit", s]     ["ckw", s]
  ["notin", chars]          ["any"]           ["empty"]         ["nomatch"]       ["regex", pattern]
  ["and", [g..], style]     ["first", [g..], style]           ["or", [g..], style]
  ["each", [g..]]           ["many", g, min, max|None, style] ["opt", g, default|None]
  ["not", g]  ["ahead", g]  ["group", g]  ["suppress", g]  ["combine", g, sep]
  ["name", g, n]            ["ref", i]    ["skipto", g, include]
`style` picks between the API spellings of the same thing (operators or constructors).
A grammar is {"rules": [g..], "start": g}; rules are Forward()s.

The interpreter below is the reference model: a direct reading of the documented
meaning of each construct, with no streamlining, no regex acceleration, no caches.
"""
import re

from mo_parsing import whitespaces
from mo_parsing import (
    And, AnyChar, CaselessKeyword, CaselessLiteral, Char, CharsNotIn, Combine, Empty, Forward, Group, Keyword, NoMatch,
    Dict, Literal, LookAhead, LookBehind, Many, MatchAll, MatchFirst, NotAny, OneOrMore, Optional, Or, SkipTo, Suppress,
    Word, ZeroOrMore,
)
from mo_parsing.helpers import QuotedString
from mo_parsing.whitespaces import Whitespace
from mo_parsing.regex import Regex

IDENT = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_$")
WS = " \n\r\t"


# --------------------------------------------------------------------------- build
class Builder:
    """Turn a spec into mo_parsing elements, in the CURRENT whitespace context."""

    def __init__(self, rules=(), hook=None):
        self.rules = rules
        self.forwards = [Forward() for _ in rules]
        self.hook = hook  # called with (spec, element), may replace the element
        self.done = False

    def start(self, g):
        if not self.done:
            self.done = True
            given = set()
            for i, r in enumerate(self.rules):
                if len(str(r)) % 2 and "'ref'" not in str(r):
                    # given to the constructor
                    self.forwards[i] = Forward(self.build(r))
                    given.add(i)
            for i, (f, r) in enumerate(zip(self.forwards, self.rules)):
                if i not in given:
                    f << self.build(r)
        return self.build(g)

    def build(self, g):
        e = self._build(g)
        if self.hook is not None:
            e = self.hook(g, e)
        return e

    def operand(self, g):
        """In operators, strings stand for Literals."""
        return self.build(g)

    def _build(self, g):
        k = g[0]
        if k == "lit":
            return Literal(g[1])
        if k == "word":
            kw = {}
            if g[3] != 1:
                kw["min"] = g[3]
            if g[4] is not None:
                kw["max"] = g[4]
            return Word(g[1], g[2], **kw) if g[2] is not None else Word(g[1], **kw)
        if k == "char":
            return Char(g[1])
        if k == "kw":
            return Keyword(g[1])
        if k == "ckw":
            return CaselessKeyword(g[1])
        if k == "clit":
            return CaselessLiteral(g[1])
        if k == "notin":
            return CharsNotIn(g[1])
        if k == "any":
            return AnyChar()
        if k == "empty":
            return Empty()
        if k == "nomatch":
            return NoMatch()
        if k == "regex":
            return Regex(g[1])
        if k == "ref":
            return self.forwards[g[1]]
        if k in ("and", "first", "or"):
            return self._sequence(k, g)
        if k == "each":
            return MatchAll([self.build(x) for x in g[1]])
        if k == "many":
            return self._many(g)
        if k == "opt":
            e = self.build(g[1])
            return Optional(e) if g[2] is None else Optional(e, default=g[2])
        if k == "not":
            return NotAny(self.build(g[1])) if len(g) < 3 or g[2] else ~self.build(g[1])
        if k == "ahead":
            return LookAhead(self.build(g[1]))
        if k == "group":
            return Group(self.build(g[1]))
        if k == "suppress":
            return Suppress(self.build(g[1])) if len(g) < 3 or not g[2] else self.build(g[1]).suppress()
        if k == "combine":
            return Combine(self.build(g[1]), separator=g[2])
        if k == "name":
            return self.build(g[1])(g[2])
        if k == "skipto":
            return SkipTo(self.build(g[1]), include=g[2])
        if k == "behind":
            return LookBehind(self.build(g[1]))
        if k == "quoted":
            return QuotedString(g[1])
        if k == "dict":
            return Dict(self.build(g[1]))
        if k == "ws":  # built in its own whitespace context
            with Whitespace(g[1]):
                return self.build(g[2])
        raise KeyError(k)

    def _sequence(self, k, g):
        style = g[2] if len(g) > 2 else 0
        kids = [self.build(x) for x in g[1]]
        # a bare literal may be spelled as a plain string (but two strings can not be combined)
        if style & 4:
            raw = [x[1] if x[0] == "lit" else kid for x, kid in zip(g[1], kids)]
            first_e = next((i for i, x in enumerate(raw) if not isinstance(x, str)), None)
            if first_e is not None and first_e <= 1:
                kids = raw
        mode = style & 3
        if mode == 1 and len(kids) > 1:  # left associated operators
            acc = kids[0]
            for x in kids[1:]:
                acc = _op(k, acc, x)
            return acc
        if mode == 2 and len(kids) > 1 and not isinstance(kids[-1], str):  # right associated operators
            acc = kids[-1]
            for x in reversed(kids[:-1]):
                acc = _op(k, x, acc)
            return acc
        if k == "and":
            return And(kids, whitespaces.CURRENT)
        if k == "first":
            return MatchFirst(kids)
        return Or(kids)

    def _many(self, g):
        e = self.build(g[1])
        lo, hi = g[2], g[3]
        style = g[4] if len(g) > 4 else 0
        if style == 1:
            if hi is None:
                return e * (lo, None) if lo else e * (None, None)
            if lo == hi:
                return e * lo
            return e * (lo, hi)
        if style == 2:
            if hi is None:
                return e[lo:]
            if lo == hi:
                return lo * e
            return e[lo:hi]
        if style == 3:
            if hi is None:
                return e[lo, ...] if lo else e[...]
            if lo == 0:
                return e[..., hi]
            return e[lo] if lo == hi else e[lo, hi]
        if style == 4:
            if hi is None:
                return (lo,) * e if lo else e * ...
            return e[:hi] if lo == 0 else (lo, hi) * e
        if hi is None and lo == 0:
            return ZeroOrMore(e)
        if hi is None and lo == 1:
            return OneOrMore(e)
        if hi is None:
            return Many(e, min_match=lo)
        if lo == hi:
            return Many(e, exact=lo)
        return Many(e, min_match=lo, max_match=hi)


def _op(k, a, b):
    if k == "and":
        return a + b
    if k == "first":
        return a | b
    return a ^ b


def build(grammar, hook=None):
    return Builder(grammar.get("rules", ()), hook).start(grammar["start"])


# --------------------------------------------------------------------------- reference
class Fail(Exception):
    def __init__(self, at):
        self.at = at


class Node:
    """Reference parse tree."""

    __slots__ = ["spec", "kind", "start", "end", "kids", "name"]

    def __init__(self, spec, start, end, kids):
        self.spec = spec
        self.kind = spec[0]
        self.start = start
        self.end = end
        self.kids = kids  # Nodes and plain values
        self.name = ""

    def empty(self):
        """No tokens, names or groups anywhere inside."""
        for x in self.kids:
            if not isinstance(x, Node):
                return False
            if x.name or x.kind == "group":
                return False
            if not x.empty():
                return False
        return True


class Ref:
    BUDGET = 60_000

    def __init__(self, grammar, string, white=WS, ignore=None, act=None):
        self.rules = grammar.get("rules", ())
        self.start_spec = grammar["start"]
        self.s = string
        self.white = white
        self.ignore = re.compile(ignore, re.DOTALL) if ignore else None
        self.far = 0
        self.steps = 0
        self.act = act

    def skip(self, i):
        s, n = self.s, len(self.s)
        while True:
            while i < n and s[i] in self.white:
                i += 1
            if self.ignore is None or i >= n:
                return i
            m = self.ignore.match(s, i)
            if not m or m.end() == i:
                return i
            i = m.end()

    def fail(self, at):
        if at > self.far:
            self.far = at
        raise Fail(at)

    def run(self):
        """Node or None."""
        try:
            return self.parse(self.start_spec, self.skip(0))
        except Fail:
            return None

    def parse(self, g, i):
        self.steps += 1
        if self.steps > self.BUDGET:
            raise TooMuch()
        node = getattr(self, "p_" + g[0])(g, i)
        if self.act is not None:
            node = self.act(self, g, node)
        return node

    # terminals
    def p_lit(self, g, i):
        if self.s.startswith(g[1], i):
            return Node(g, i, i + len(g[1]), [g[1]])
        self.fail(i)

    def p_word(self, g, i):
        _, init, body, lo, hi = g[:5]
        body = init if body is None else body
        s, n = self.s, len(self.s)
        if i >= n or s[i] not in init:
            self.fail(i)
        j = i + 1
        while j < n and s[j] in body and (hi is None or j - i < hi):
            j += 1
        if j - i < lo:
            self.fail(i)
        return Node(g, i, j, [s[i:j]])

    def p_char(self, g, i):
        if i < len(self.s) and self.s[i] in g[1]:
            return Node(g, i, i + 1, [self.s[i]])
        self.fail(i)

    def p_kw(self, g, i):
        j = i + len(g[1])
        if self.s.startswith(g[1], i) and not (j < len(self.s) and self.s[j] in IDENT):
            return Node(g, i, j, [g[1]])
        self.fail(i)

    def p_ckw(self, g, i):
        j = i + len(g[1])
        if self.s[i:j].lower() == g[1].lower() and not (j < len(self.s) and self.s[j] in IDENT):
            return Node(g, i, j, [g[1]])
        self.fail(i)

    def p_clit(self, g, i):
        j = i + len(g[1])
        if self.s[i:j].lower() == g[1].lower():
            return Node(g, i, j, [g[1]])
        self.fail(i)

    def p_notin(self, g, i):
        j = i
        while j < len(self.s) and self.s[j] not in g[1]:
            j += 1
        if j == i:
            self.fail(i)
        return Node(g, i, j, [self.s[i:j]])

    def p_any(self, g, i):
        if i < len(self.s):
            return Node(g, i, i + 1, [self.s[i]])
        self.fail(i)

    def p_empty(self, g, i):
        return Node(g, i, i, [])

    def p_nomatch(self, g, i):
        self.fail(i)

    def p_regex(self, g, i):
        m = re.compile(g[1], re.DOTALL).match(self.s, i)
        if m:
            return Node(g, i, m.end(), [m.group()])
        self.fail(i)

    def p_ref(self, g, i):
        r = self.parse(self.rules[g[1]], i)
        return Node(g, r.start, r.end, [r])

    # composition
    def p_and(self, g, i):
        end = index = i
        acc = []
        for e in g[1]:
            if end > index:
                index = self.skip(end)
            r = self.parse(e, index)
            acc.append(r)
            if r.end > index:
                end = r.end  # what matches nothing does not take the whitespace before it
        return Node(g, i, end, acc)

    def p_first(self, g, i):
        for e in g[1]:
            try:
                r = self.parse(e, i)
                return Node(g, r.start, r.end, [r])
            except Fail:
                pass
        self.fail(i)

    def p_or(self, g, i):
        best = None
        for e in g[1]:
            try:
                r = self.parse(e, i)
            except Fail:
                continue
            if best is None:
                best = r
                continue
            lo, hi = sorted((best.end, r.end))
            if lo < len(self.s) and self.s[lo] in self.white and not self.s[lo:hi].strip(self.white):
                raise TooMuch()  # may differ in trailing whitespace only: which is longest is not specified
            if r.end > best.end:
                best = r
        if best is None:
            self.fail(i)
        return Node(g, best.start, best.end, [best])

    def p_many(self, g, i):
        lo, hi = g[2], g[3]
        acc = []
        end = i
        while end < len(self.s):
            index = self.skip(end)
            try:
                r = self.parse(g[1], index)
            except Fail:
                break
            if r.end == r.start:
                break
            acc.append(r)
            end = r.end
            if hi is not None and len(acc) >= hi:
                break
        if len(acc) < lo:
            self.fail(i)
        if acc:
            return Node(g, acc[0].start, acc[-1].end, acc)
        return Node(g, i, i, [])

    def p_opt(self, g, i):
        try:
            r = self.parse(g[1], i)
            return Node(g, r.start, r.end, [r])
        except Fail:
            d = g[2]
            return Node(g, i, i, [] if d is None else [d])

    def p_not(self, g, i):
        far = self.far
        try:
            self.parse(g[1], i)
        except Fail:
            self.far = far
            return Node(g, i, i, [])
        self.far = far
        self.fail(i)

    def p_ahead(self, g, i):
        r = self.parse(g[1], i)
        return Node(g, i, i, [r])

    def p_group(self, g, i):
        r = self.parse(g[1], i)
        return Node(g, r.start, r.end, [r])

    def p_suppress(self, g, i):
        r = self.parse(g[1], i)
        return Node(g, r.start, r.end, [])

    def p_combine(self, g, i):
        r = self.parse(g[1], i)
        return Node(g, i, r.end, [g[2].join(flat_strings(r))])

    def p_name(self, g, i):
        r = self.parse(g[1], i)
        r2 = Node(r.spec, r.start, r.end, r.kids)
        r2.name = g[2]
        return r2

    def p_skipto(self, g, i):
        n = len(self.s)
        loc = i
        while loc <= n:
            before = loc
            at = self.skip(loc)
            far = self.far
            try:
                r = self.parse(g[1], at)
            except Fail:
                self.far = far
                loc = at + 1
                continue
            kids = [self.s[i:before]] if before > i else []
            if g[2]:
                return Node(g, i, r.end, kids + [r])
            return Node(g, i, at, kids)
        self.fail(i)


class TooMuch(Exception):
    """The reference itself needs too many steps for this case; it is not judged."""


def tokens(node):
    """The nested list of tokens of a reference node (what as_list() documents)."""
    out = []
    for x in node.kids:
        if isinstance(x, Node):
            out.extend(tokens(x))
        else:
            out.append(x)
    if node.kind == "ahead" or node.kind == "not":
        return []
    if node.kind == "group":
        return [out]
    return out


def flat_strings(node):
    out = []

    def walk(x):
        for y in x:
            if isinstance(y, list):
                walk(y)
            else:
                out.append(y)

    walk(tokens(node))
    return out


# --------------------------------------------------------------------------- analysis
def size(g):
    n = 1
    for x in g[1:]:
        if isinstance(x, list):
            if x and isinstance(x[0], list):
                n += sum(size(y) for y in x)
            elif x and isinstance(x[0], str) and hasattr(Ref, "p_" + x[0]):
                n += size(x)
    return n


def walk(g):
    yield g
    for x in g[1:]:
        if isinstance(x, list):
            if x and isinstance(x[0], list):
                for y in x:
                    yield from walk(y)
            elif x and isinstance(x[0], str) and hasattr(Ref, "p_" + x[0]):
                yield from walk(x)


def nullable(g):
    """Can g match without consuming (conservative for refs: rules always consume)."""
    k = g[0]
    if k in ("empty", "nomatch", "opt", "not", "ahead", "behind"):
        return True
    if k in ("lit", "word", "char", "kw", "ckw", "clit", "notin", "any", "ref", "quoted"):
        return False
    if k == "regex":
        return re.compile(g[1]).match("") is not None
    if k == "and":
        return all(nullable(x) for x in g[1])
    if k in ("first", "or"):
        return any(nullable(x) for x in g[1])
    if k == "each":
        return all(nullable(x) for x in g[1])
    if k == "many":
        return g[2] == 0 or nullable(g[1])
    if k == "skipto":
        return True
    if k == "ws":
        return nullable(g[2])
    return nullable(g[1])
