"""Grammars whose parts are built in whitespace contexts of their own ("ws" nodes), and their reference meaning."""
import contextlib
import re

from mo_parsing import CharsNotIn, Literal, Word
from mo_parsing.regex import Regex
from mo_parsing.whitespaces import Whitespace

from pbt import gram
from pbt.gen import GrammarGen, Sampler, mutate

WHITES = [" \n\r\t", "", " ", ".", "-", " .", "\n", "b", "^-]", "\t ", "é", "\\", " \n", "a "]
IGNORES = [
    ["#[^#]*#", lambda: Regex("#[^#]*#"), ["##", "#a#", "# b#"]],
    ["#", lambda: Literal("#"), ["#", "##"]],
    ["~+", lambda: Word("~"), ["~", "~~"]],
    ["%[^%\n]*", lambda: Regex("%[^%\n]*"), ["%", "%a", "%ab c"]],
    ["!b", lambda: Literal("!b"), ["!b"]],
    ["[^abcABC .\n\r\t!%#~-]+", lambda: CharsNotIn("abcABC .\n\r\t!%#~-"), ["?", "(x)"]],
]


# --------------------------------------------------------------------------- scoped grammars
class ScopedMixin:
    """ws nodes have lexical scope: rules keep the outermost context"""

    def __init__(self, grammar, string, white, ignores):
        super().__init__(grammar, string, white)
        self.outer = (white, ignores)
        self.ignores = [re.compile(IGNORES[i][0], re.DOTALL) for i in ignores]
        self.used = set()
        self.scope = 0

    def skip(self, i):
        start, s, n = i, self.s, len(self.s)
        while i <= n:
            while i < n and s[i] in self.white:
                i += 1
            for r in self.ignores:
                m = r.match(s, i)
                if m and m.end() > i:
                    i = m.end()
                    break
            else:
                break
        if i > start:
            self.used.add(self.scope)
        return i

    def within(self, white, ignores, scope, g, i):
        saved = self.white, self.ignores, self.scope
        self.white = white
        self.ignores = [re.compile(IGNORES[k][0], re.DOTALL) for k in ignores]
        self.scope = scope
        try:
            return self.parse(g, i)
        finally:
            self.white, self.ignores, self.scope = saved

    def p_ws(self, g, i):
        r = self.within(g[1], g[3] if len(g) > 3 else [], id(g), g[2], i)
        return gram.Node(g, r.start, r.end, [r])

    def p_ref(self, g, i):
        r = self.within(self.outer[0], self.outer[1], 0, self.rules[g[1]], i)
        return gram.Node(g, r.start, r.end, [r])

    later = False  # whether parts may start after the place they are tried at

    def p_many(self, g, i):
        if self.skip(i) != i and (not self.later or g[2:4] == [1, 1]):
            raise gram.TooMuch()  # only what is skipped between parts is specified; x*1 is x
        return super().p_many(g, i)

    def p_and(self, g, i):
        end = index = i
        acc = []
        for e in g[1]:
            if end > index:
                index = self.skip(end)
            r = self.parse(e, index)
            if r.end > r.start > i == end:
                raise gram.TooMuch()  # where a sequence starts, whose first part starts later, is not specified
            acc.append(r)
            if r.end > index:
                end = r.end
            elif index > end and (e[0] not in ("opt", "many") or not r.empty()):
                raise gram.TooMuch()
        return gram.Node(g, i, end, acc)


class BuilderMixin:
    def _build(self, g):
        if g[0] == "ws":
            with context(g[1], g[3] if len(g) > 3 else []):
                return self.build(g[2])
        return super()._build(g)


@contextlib.contextmanager
def context(white, ignores):
    with Whitespace(white) as w:
        if ignores:
            w.add_ignore(*[IGNORES[i][1]() for i in ignores])
        yield w


KINDS = [
    (7, "and"), (3, "first"), (4, "many"), (3, "opt"), (1, "or"), (3, "group"), (1, "suppress"), (1, "combine"), (7, "ws"),
]


class GenMixin:
    def node(self, k, depth, free):
        if k != "ws":
            return super().node(k, depth, free)
        body = self.node(self.t.pick(["and", "and", "many"]), depth, free)
        return ["ws", self.t.pick(WHITES), body, ignores(self.t)]


def ignores(t):
    return sorted(set(t.some(0, t.pick([0, 0, 1, 2]), lambda: t.n(len(IGNORES)))))


class ScopedSampler(Sampler):
    """Separators are taken from the context they are in, or sometimes from another"""

    stack = ()
    later = False  # sometimes begin parts with whitespace of their own

    def sample(self, g):
        if g[0] == "ws":
            self.stack = self.stack + ((g[1], g[3]),)
            try:
                lead = self.space() if self.later and self.t.n(3) == 2 else ""
                body = self.sample(g[2])
                return lead + body if body else ""
            finally:
                self.stack = self.stack[:-1]
        if g[0] == "ref":
            saved, self.stack = self.stack, self.stack[:1]
            try:
                return self.sample(self.rules[g[1]])
            finally:
                self.stack = saved
        return Sampler.sample(self, g)

    def space(self):
        t = self.t
        white, ign = self.stack[-1] if t.n(6) else t.pick(self.stack)
        out = ""
        for _ in range(t.pick([1, 0, 1, 2, 3])):
            if ign and t.n(2):
                out += t.pick(IGNORES[t.pick(ign)][2])
            elif white:
                out += t.pick(white)
        if t.n(24) == 23:
            out += t.pick(" .-\n#~")
        return out


def samples(t, rules, start, outer, lo, hi, later=False):
    strings = []
    for _ in range(t.between(lo, hi)):
        sampler = ScopedSampler(t, {"rules": rules})
        sampler.stack = (tuple(outer),)
        sampler.later = later
        s = sampler.sample(start)[:60]
        if t.n(5) == 4:
            s = s[:1] + mutate(t, s[1:], "abc .-#\n")
        if s not in strings:
            strings.append(s)
    return strings
