"""C27: anchors and lookbehind look at exactly the text around the position."""
import re

from mo_parsing import (
    AnyChar, Group, LineEnd, LineStart, Literal, LookAhead, LookBehind, MatchFirst, NotAny, Optional, StringEnd, StringStart, WordEnd, WordStart,
)
from mo_parsing.regex import Regex
from mo_parsing.utils import alphanums, alphas, nums, printables
from mo_parsing.whitespaces import Whitespace

from pbt import gram
from pbt.gen import GrammarGen, Sampler, cases
from pbt.lib import Violation, call, expect, no_crash, plain
from pbt.runner import Sub

ID = "C27"
RULE = (
    "anchor: one of the six anchors (word anchors with default, named and random character sets, including -, ], ^ and \\), at every position of a "
    "text of words, signs and \\n, \\r\\n, \\r line ends; alone, copied, grouped, optional, in a choice, in a lookahead, negated and doubled. "
    "behind: a lookbehind of a random expression (fixed tokens, variable tokens, composites; named; with and without retreat) at every position. "
    "Whether it matches, its tokens, names and end are compared to a predicate on the text. Non-trivial: it matches at one position and not "
    "at two others."
)
ASSUMPTIONS = ["a string that ends in line ends is at its end before them (as the code documents)", "positions are reached in a context without whitespace"]

SETS = [alphas, alphanums, nums, "ab", "a-z", "]a", "^a", "\\a", "a.", "[b", "b\u00e9"]
PIECES = ["a", "b", "ab", "a1", "Z", "_", "-", " ", ".", "\u00e9", "]", "^", "\\", "\n", "\n", "\r\n", "\r", "\n\n", "$", "\t", "\x0b", "\x85", "\u2028"]


def decode(t):
    kind = t.pick(["StringStart", "StringEnd", "LineStart", "LineEnd", "WordStart", "WordStart", "WordEnd", "WordEnd"])
    case = {"kind": kind, "set": None, "s": "".join(t.pick(PIECES) for _ in range(t.between(0, 6)))}
    if kind in ("WordStart", "WordEnd") and t.n(5):
        case["set"] = t.pick(SETS) if t.n(3) else t.chars("ab1Z_-].^\\\u00e9$", 1, 4)
    return case


def make(case):
    kind = case["kind"]
    if kind == "StringStart":
        return StringStart()
    if kind == "StringEnd":
        return StringEnd()
    if kind == "LineStart":
        return LineStart()
    if kind == "LineEnd":
        return LineEnd()
    cls = WordStart if kind == "WordStart" else WordEnd
    return cls() if case["set"] is None else cls(case["set"])


# the characters of words when none are given
KEYWORD_CHARS = set(alphanums + "_$")


def model(case, s, p):
    """(end, tokens) of the match at p, or None"""
    kind = case["kind"]
    n = len(s)
    if kind == "StringStart":
        return (p, []) if p == 0 else None
    if kind == "StringEnd":
        return (n, []) if re.fullmatch("(\r?\n)*", s[p:]) else None
    if kind == "LineStart":
        return (p, []) if p == 0 or s[p - 1] == "\n" else None
    if kind == "LineEnd":
        m = re.compile("\r?\n|\r?\\Z").match(s, p)
        return (m.end(), ["\n"]) if m else None
    if case["set"] is not None:
        chars = set(case["set"])
    else:
        chars = set(printables) if kind == "WordStart" else KEYWORD_CHARS
    here = p < n and s[p] in chars
    before = p > 0 and s[p - 1] in chars
    if kind == "WordStart":
        return (p, []) if here and not before else None
    return (p, []) if before and not here else None


REST = "(?s).*"


def at(k, e):
    with Whitespace(""):
        return ((Regex(".{%d}" % k) + e) if k else e + Regex(REST)).finalize()


def check(case, ctx):
    s = case["s"]
    with Whitespace(""):
        forms = [
            ("alone", make(case), 1), ("copied", make(case).copy(), 1), ("in a group", Group(make(case)), 2), ("optional", Optional(make(case)), 3),
            ("in a choice", MatchFirst([Literal("\ue123"), make(case)]), 1), ("looked ahead", LookAhead(make(case)), 4),
            ("negated", NotAny(make(case)), 5), ("twice negated", ~~make(case), 4), ("named", make(case)("n"), 1),
        ]
        # the rest of the text shows where the match ended
        rest = Regex(REST)
        parsers = {}
        for k in range(len(s) + 1):
            for what, e, how in forms:
                parsers[k, what] = ((Regex("(?s).{%d}" % k) + e + rest) if k else (e + rest)).finalize()
    yes = no = 0
    for k in range(len(s) + 1):
        m = model(case, s, k)
        yes += m is not None
        no += m is None
        for what, e, how in forms:
            o = no_crash(call(parsers[k, what].parse, s), f"{what} at {k} of {s!r}")
            want = m
            if how == 3 and m is None or how == 4 and m is not None or how == 5 and m is None:
                want = (k, [])
            elif how == 5:
                want = None
            if want is None:
                expect(not o.ok, lambda: f"{what}, {case['kind']} should not match at {k} of {s!r}, but gives {o!r}")
                continue
            expect(o.ok, lambda: f"{what}, {case['kind']} should match at {k} of {s!r}, but {o!r}")
            end, tokens = want
            tokens = ([s[:k]] if k else []) + ([tokens] if how == 2 else tokens) + [s[end:]]
            got = o.value.as_list()
            expect(got == tokens, lambda: f"{what}, {case['kind']} at {k} of {s!r} should give {tokens}, but gives {got}")
    if yes and no > 1:
        ctx.hit(case["kind"])


# --------------------------------------------------------------------------- lookbehind
TOKENS = [(8, "lit"), (4, "word"), (3, "char"), (2, "clit"), (2, "notin"), (1, "any"), (3, "regex")]
KINDS = [(5, "and"), (4, "first"), (3, "many"), (2, "opt"), (2, "group"), (1, "suppress"), (1, "combine")]


def decode_behind(t):
    g = GrammarGen(t, kinds=KINDS, terminals=TOKENS, max_nodes=t.pick([1, 1, 3, 5]), depth=2).grammar()["start"]
    if t.n(6) == 5:
        g = ["kw", t.pick(["a", "ab", "b"])]
    if g == ["regex", "a(?=b)"]:
        g = ["regex", "a+"]
    g = without_ahead(g)
    retreat = t.between(1, 4) if t.n(4) == 3 else None
    s = ""
    for _ in range(t.between(1, 4)):
        s += Sampler(t, {"rules": []}, spaces=["", "", "\n"]).sample(g)[:5] if t.n(3) else t.pick(["a", "b", "\n", " ", "c", "ab", "A"])
    return {"g": g, "s": s[:10], "retreat": retreat, "named": t.n(4) == 3}


def without_ahead(g):
    if isinstance(g, list):
        if g and g[0] == "regex" and "?=" in g[1]:
            return ["regex", "a+"]
        return [without_ahead(x) for x in g]
    return g


def behind(g, s, p, retreat):
    """start of a text that ends at p and that g matches, and the match"""
    low = 0 if retreat is None else max(0, p - retreat)
    for q in range(p, low - 1, -1):
        ref = gram.Ref({"rules": [], "start": g}, s if g[0] == "kw" else s[:p], white="")
        try:
            r = ref.parse(g, q)
        except gram.Fail:
            continue
        if r.end == p:
            return q, r
    return None


def check_behind(case, ctx):
    g, s = case["g"], case["s"]
    with Whitespace(""):
        inner = gram.build({"rules": [], "start": g})
        if case["named"] and g[0] in ("lit", "word", "char", "any", "notin"):
            inner = inner("n")
        kw = {} if case["retreat"] is None else {"retreat": case["retreat"]}
        e = LookBehind(inner, **kw)
        negated = ~LookBehind(inner, **kw)
        rest = Regex(REST)
        parsers = [((Regex("(?s).{%d}" % k) + e + rest), (Regex("(?s).{%d}" % k) + negated + rest)) for k in range(1, len(s) + 1)]
    yes = no = 0
    for k, (p, n) in enumerate(parsers):
        k += 1
        m = behind(g, s, k, case["retreat"])
        o = no_crash(call(p.parse, s), f"behind {k} of {s!r}")
        o2 = no_crash(call(n.parse, s), f"negated, behind {k} of {s!r}")
        if m is None:
            no += 1
            expect(not o.ok, lambda: f"nothing that matches ends at {k} of {s!r}, but lookbehind gives {o!r}")
            expect(o2.ok, lambda: f"nothing that matches ends at {k} of {s!r}, but the negated lookbehind {o2!r}")
            continue
        yes += 1
        expect(o.ok, lambda: f"{s[m[0]:k]!r} ends at {k} of {s!r}, but lookbehind {o!r}")
        expect(not o2.ok, lambda: f"{s[m[0]:k]!r} ends at {k} of {s!r}, but the negated lookbehind matches")
        got, want = o.value.as_list(), [s[:k], s[k:]]
        expect(got == want, lambda: f"lookbehind at {k} of {s!r} should give {want}, but gives {got}")
        if case["named"] and g[0] in ("lit", "char", "any"):
            expect(plain(o.value["n"]) == s[m[0]:k], lambda: f"n should be {s[m[0]:k]!r}, but is {o.value['n']!r}")
    if yes and no:
        ctx.hit("behind")


SUBS = [
    Sub("anchor", cases(decode, 40), check, 1600, 200000),
    Sub("behind", cases(decode_behind, 70), check_behind, 6000, 200000),
]
