"""Structured cases decoded from a byte tape.

Hypothesis draws (and shrinks) one bytes value; `Tape` reads decisions off it. Byte 0 always
means the simplest choice and an exhausted tape reads as zeros, so shrinking the bytes
shrinks the case.
"""
from hypothesis import strategies as st

from pbt import gram


class Tape:
    __slots__ = ["data", "pos"]

    def __init__(self, data):
        self.data = data
        self.pos = 0

    def byte(self):
        if self.pos < len(self.data):
            self.pos += 1
            return self.data[self.pos - 1]
        return 0

    def n(self, k):
        """integer in [0, k)"""
        if k <= 1:
            return 0
        if k > 256:
            return ((self.byte() << 16) | (self.byte() << 8) | self.byte()) % k
        return self.byte() % k

    def between(self, a, b):
        return a + self.n(b - a + 1)

    def pick(self, seq):
        return seq[self.n(len(seq))]

    def chance(self, a, b):
        """True with probability a/b (False is the simple choice)"""
        return self.n(b) >= b - a

    def weighted(self, pairs):
        total = sum(w for w, _ in pairs)
        k = self.n(total)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise AssertionError

    def some(self, lo, hi, fn):
        return [fn() for _ in range(self.between(lo, hi))]

    def chars(self, alphabet, lo, hi):
        return "".join(self.pick(alphabet) for _ in range(self.between(lo, hi)))

    def shuffled(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.n(len(seq))))
        return out


def tape_strategy(decode, size=160):
    """Cases decode(tape) for random tapes of about `size` bytes."""
    return st.binary(min_size=size // 2, max_size=size * 2).map(lambda b: decode(Tape(b)))


def cases(decode, size=160):
    return lambda: tape_strategy(decode, size)


# --------------------------------------------------------------------------- grammars
LITS = ["a", "b", "c", "ab", "ba", "aa", "abc", "bb", "ca"]
SETS = ["a", "b", "ab", "bc", "abc"]
KEYWORDS = ["a", "ab", "b", "cab"]
NAMES = ["n", "m", "x"]
ALPHABET = "abc"
SPACES = ["", " ", "", "  ", "\n", "\t "]


class GrammarGen:
    def __init__(self, tape, kinds=None, rules=0, names=False, depth=4, max_nodes=28, terminals=None, never=False):
        self.t = tape
        self.kinds = kinds or [
            (6, "and"), (5, "first"), (4, "many"), (4, "opt"), (2, "or"), (2, "not"), (1, "ahead"),
            (3, "group"), (1, "suppress"), (1, "combine"),
        ]
        self.terminals = terminals or [
            (8, "lit"), (4, "word"), (3, "char"), (2, "kw"), (2, "clit"), (1, "ckw"), (2, "notin"),
            (1, "any"), (1, "empty"), (3, "regex"),
        ]
        if never:
            self.terminals = self.terminals + [(1, "nomatch")]
        self.nrules = rules
        self.names = names
        self.depth = depth
        self.left = max_nodes
        self.named = 0

    def grammar(self):
        rules = [self.rule() for _ in range(self.nrules)]
        start = self.expr(self.depth, True)
        if self.names and start[0] != "group":
            # a named top-level expression is returned inside an extra group, so that its name can be looked up
            start = ["group", start]
        return {"rules": rules, "start": start}

    def rule(self):
        # a rule begins with a terminal or a choice of those, so that rules are never left recursive
        return self.consuming(self.expr(self.depth - 1, False))

    def consuming(self, g):
        if gram.nullable(g):
            return ["and", [["lit", self.t.pick(LITS)], g], self.t.n(8)]
        return g

    def terminal(self):
        t = self.t
        self.left -= 1
        k = t.weighted(self.terminals)
        if k == "lit":
            return ["lit", t.pick(LITS)]
        if k == "word":
            init = t.pick(SETS)
            body = t.pick(SETS) if t.chance(1, 3) else None
            lo = t.pick([1, 1, 1, 2])
            hi = None if t.n(3) < 2 else lo + t.n(3)
            return ["word", init, body, lo, hi]
        if k == "char":
            return ["char", t.pick(SETS)]
        if k == "kw":
            return ["kw", t.pick(KEYWORDS)]
        if k == "ckw":
            return ["ckw", t.pick(["a", "Ab", "cab"])]
        if k == "clit":
            return ["clit", t.pick(["a", "Ab", "BA", "c"])]
        if k == "notin":
            return ["notin", t.pick(["a", "ab", "a ", "bc \n"])]
        if k == "regex":
            return ["regex", t.pick(["a+", "ab?", "[ab]+", "b+c?", "(a|b)c", "a(?=b)", "[^a ]+"])]
        return [k]

    def expr(self, depth, free):
        """free: references to rules are allowed here (something was consumed, or not in a rule)"""
        t = self.t
        if depth <= 0 or self.left <= 0 or t.n(6) == 0:
            if self.nrules and free and t.n(3) == 2:
                self.left -= 1
                return ["ref", t.n(self.nrules)]
            return self.terminal()
        self.left -= 1
        g = self.node(t.weighted(self.kinds), depth, free)
        if self.names and t.n(5) == 4:
            if not (g[0] == "name"):
                g = ["name", g, self.name(g)]
        return g

    def name(self, g):
        self.named += 1
        return "n%d" % self.named

    def node(self, k, depth, free):
        t = self.t
        if k == "and":
            out = []
            for _ in range(t.pick([2, 2, 3, 1, 4])):
                e = self.expr(depth - 1, free)
                out.append(e)
                free = free or not gram.nullable(e)
            return ["and", out, t.n(8)]
        if k in ("first", "or"):
            return [k, t.some(2, 5, lambda: self.expr(depth - 1, free)), t.n(8)]
        if k == "many":
            body = self.consuming(self.expr(depth - 1, free))
            lo, hi = t.pick([(0, None), (1, None), (2, None), (0, 2), (1, 2), (2, 2), (1, 3), (3, 3), (0, 1), (1, 1)])
            return ["many", body, lo, hi, t.n(5)]
        if k == "opt":
            return ["opt", self.expr(depth - 1, free), t.pick([None, None, None, "D"])]
        if k == "not":
            return ["not", self.expr(depth - 1, free), t.n(2) == 0]
        if k == "each":
            return ["each", [self.consuming(self.expr(depth - 1, free)) for _ in range(t.between(2, 3))]]
        if k == "combine":
            return ["combine", self.expr(depth - 1, free), t.pick(["", "-"])]
        if k == "suppress":
            return ["suppress", self.expr(depth - 1, free), t.n(2)]
        return [k, self.expr(depth - 1, free)]


class Sampler:
    """Strings of (roughly) the language of a grammar."""

    def __init__(self, tape, grammar, spaces=SPACES):
        self.t = tape
        self.rules = grammar.get("rules", ())
        self.spaces = spaces
        self.fuel = 40

    def sample(self, g):
        t = self.t
        self.fuel -= 1
        k = g[0]
        if self.fuel < 0 and k not in ("lit", "clit", "kw", "ckw", "word", "char"):
            return ""
        if k in ("lit", "kw"):
            return g[1]
        if k in ("clit", "ckw"):
            return t.pick([g[1], g[1].lower(), g[1].upper()])
        if k == "word":
            n = g[3] + t.n(3)
            if g[4] is not None:
                n = min(n, g[4])
            body = g[1] if g[2] is None else g[2]
            return t.pick(g[1]) + "".join(t.pick(body) for _ in range(n - 1))
        if k == "char":
            return t.pick(g[1])
        if k == "notin":
            c = [x for x in ALPHABET if x not in g[1]] or ["d"]
            return "".join(t.pick(c) for _ in range(1 + t.n(2)))
        if k == "any":
            return t.pick(ALPHABET)
        if k == "regex":
            return t.pick(REGEX_SAMPLES.get(g[1], ["a"]))
        if k == "ref":
            return self.sample(self.rules[g[1]])
        if k == "and":
            return self.join([self.sample(x) for x in g[1]])
        if k in ("first", "or"):
            return self.sample(t.pick(g[1]))
        if k == "each":
            return self.join([self.sample(x) for x in t.shuffled(g[1])])
        if k == "many":
            n = g[2] + t.n(3)
            if g[3] is not None:
                n = min(n, g[3])
            return self.join([self.sample(g[1]) for _ in range(n)])
        if k == "opt":
            return self.sample(g[1]) if t.n(3) else ""
        if k in ("not", "ahead", "empty", "nomatch", "behind"):
            return ""
        if k == "quoted":
            return g[1] + t.chars(ALPHABET, 0, 3) + g[1]
        if k == "ws":
            return self.sample(g[2])
        if k == "skipto":
            return t.chars(ALPHABET, 0, 3) + self.space() + (self.sample(g[1]) if g[2] else "")
        return self.sample(g[1])

    def space(self):
        return self.t.pick(self.spaces)

    def join(self, parts):
        out = []
        for p in parts:
            if p and out:
                out.append(self.space())
            out.append(p)
        return "".join(out)


REGEX_SAMPLES = {
    "a+": ["a", "aa"], "ab?": ["a", "ab"], "[ab]+": ["a", "ba", "abb"], "b+c?": ["b", "bc", "bbc"],
    "(a|b)c": ["ac", "bc"], "a(?=b)": ["a"], "[^a ]+": ["b", "c", "bc"],
}


def mutate(t, s, alphabet=ALPHABET + " "):
    for _ in range(t.pick([1, 1, 2, 3])):
        i = t.n(len(s) + 1)
        k = t.n(4)
        if k == 0:
            s = s[:i] + t.pick(alphabet) + s[i:]
        elif k == 1:
            s = s[:i] + s[i + 1:]
        elif k == 2:
            s = s[:i] + t.pick(alphabet) + s[i + 1:]
        else:
            s = s[:i]
    return s


def inputs(t, grammar, lo=2, hi=4, spaces=SPACES, extra=True):
    """Accepted-looking, mutated and random strings for a grammar."""
    out = []
    for _ in range(t.between(lo, hi)):
        s = Sampler(t, grammar, spaces).sample(grammar["start"])[:60]
        k = t.n(5)
        if k == 3:
            s = mutate(t, s)
        elif k == 4 and extra:
            s = s + t.pick(["", " ", "a", "b", " c", "ab"])
        if t.n(8) == 7:
            s = t.pick([" ", "\n", "\t "]) + s
        if s not in out:
            out.append(s)
    return out
