"""C12: expressions are immutable: deriving one never changes another."""
from mo_parsing import (
    And, AnyChar, CaselessLiteral, Char, Combine, Empty, Forward, Group, Keyword, Literal, LookAhead, MatchFirst, NotAny,
    OneOrMore, Optional, Or, SkipTo, Suppress, Word, ZeroOrMore, helpers, whitespaces,
)
from mo_parsing.infix import delimited_list, one_of
from mo_parsing.regex import Regex
from mo_parsing.results import ParseResults
from mo_parsing.utils import nums
from mo_parsing.whitespaces import Whitespace

from pbt.gen import cases
from pbt.lib import Violation, call, plain
from pbt.runner import Sub

ID = "C12"
RULE = (
    "Cases: a history of 6-22 steps over a growing pool of expressions: build a base expression, derive a new expression from one or two "
    "pool members (27 ways), or parse, scan, streamline or finalize a member. At the end, and at every parse, each member's outcomes "
    "on 6 inputs are compared to those of the same expression built from scratch by itself. Non-trivial: at least 4 derivations, of which "
    "two use the same earlier expression, and a member that accepts some input."
)
COSTLY = True
ASSUMPTIONS = [
    "Forward definitions (<<) and Forward.add_parse_action are documented changes and are made before use only",
    "outcome: tokens and named values, or rejection",
]


def upper(t):
    return t.as_string().upper()


def count(t, i):
    return [len(t), "n"]


def keep(t, i, s):
    return None


def short(t):
    return len(t.as_string()) < 3


def not_b(t):
    return "b" not in t.as_string()


ACTS = [upper, count, keep]
CONDS = [short, not_b]


def rec():
    f = Forward()
    f << (Literal("a") + Optional(f))
    return f


BASES = [
    lambda: Literal("a"), lambda: Literal("b"), lambda: Word("ab"), lambda: Literal("ab"), lambda: Regex("a+"), lambda: Keyword("ab"),
    lambda: Char("ab"), lambda: CaselessLiteral("A"), lambda: one_of("a ab b"), lambda: delimited_list(Word("ab")), rec, Empty,
    lambda: helpers.integer, AnyChar, lambda: Literal("a") + Literal("b"), lambda: Literal("a") | Literal("b"), lambda: Suppress(","),
    lambda: OneOrMore(Literal("a")), lambda: Optional(Literal("a"))("o"), lambda: Group(Literal("a") + Optional(Literal("b")))("g"),
]
FRESH = {12: lambda: Word(nums) / helpers.token_map(int)}
NAMES = ["n", "m", "o", "g"]
UNARY = [
    "name", "act", "cond", "suppress", "copy", "group", "combine", "opt", "many", "more", "twice", "slice", "not", "ahead",
    "streamline", "fwd", "lit", "unact", "suppress2", "named2", "pend", "dots",
]
BINARY = ["and", "first", "or", "each", "minus", "stop", "skipto", "and_ws", "and3", "first3"]
INPUTS = ["a", "ab", "a b", "aab", "b a b", "12", "a,b", "aaaa", "", "ba", "a b a b", "A", "aba"]


def apply(op, args):
    """The real derivation. args: expressions, then constants."""
    k = op[0]
    a = args[0] if args else None
    b = args[1] if len(args) > 1 else None
    c = op[-1]
    if k == "base":
        return BASES[c]()
    if k == "name":
        return a(NAMES[c % 4])
    if k == "named2":
        return a.set_token_name(NAMES[c % 4])
    if k == "act":
        return a / ACTS[c % 3] if c < 3 or isinstance(a, Forward) else a.add_parse_action(ACTS[c % 3])
    if k == "cond":
        return a.add_condition(CONDS[c % 2])
    if k == "unact":
        return a.clear_parse_action()
    if k == "suppress":
        return a.suppress()
    if k == "suppress2":
        return Suppress(a)
    if k == "copy":
        return a.copy()
    if k == "group":
        return Group(a)
    if k == "combine":
        return Combine(a)
    if k == "opt":
        return Optional(a) if c % 2 else Optional(a, default="D")
    if k == "many":
        return ZeroOrMore(a) if c % 2 else a[...]
    if k == "more":
        return OneOrMore(a) if c % 2 else a * (1, None)
    if k == "twice":
        return a * 2
    if k == "slice":
        return a[1:2]
    if k == "not":
        return ~a
    if k == "ahead":
        return LookAhead(a)
    if k == "streamline":
        return a.streamline()
    if k == "fwd":
        f = Forward()
        f << a
        return f
    if k == "lit":
        return a + "b" if c % 2 else "a" | a
    if k == "and":
        return a + b
    if k == "and_ws":
        with Whitespace(""):
            return a + b
    if k == "and3":
        return And([a, b, a], whitespaces.CURRENT)
    if k == "first3":
        return MatchFirst([a, b, a])
    if k == "first":
        return a | b
    if k == "or":
        return a ^ b
    if k == "each":
        return a & b
    if k == "minus":
        return a - b
    if k == "stop":
        return OneOrMore(a, stop_on=b) if c % 2 else ZeroOrMore(a, stop_on=b)
    if k == "skipto":
        return SkipTo(a, include=bool(c % 2)) if c % 3 else a + SkipTo(b)
    if k == "pend":
        return a + ...
    if k == "dots":
        return ... + a
    if k == "pendadd":
        return a + b
    raise KeyError(k)


def decode(t):
    steps, kinds, size = [], [], []
    for n in range(t.between(6, 22)):
        exprs = [i for i, k in enumerate(kinds) if k == "e" and size[i] < 14]
        pend = [i for i, k in enumerate(kinds) if k == "p" and size[i] < 14]
        k = t.n(10)
        if len(exprs) < 2 or k == 0:
            steps.append(["base", t.n(len(BASES))])
            kinds.append("e")
            size.append(1)
        elif k < 5:
            op = t.pick(UNARY)
            i = t.pick(exprs)
            steps.append([op, i, t.n(6)])
            kinds.append("p" if op == "pend" else "e")
            size.append(size[i] + 1)
        elif k < 8:
            i, j = t.pick(exprs), t.pick(exprs)
            if pend and t.n(3) == 2:
                op, i = "pendadd", t.pick(pend)
            else:
                op = t.pick(BINARY)
            steps.append([op, i, j, t.n(6)])
            kinds.append("e")
            size.append(size[i] + size[j] + 1)
        else:
            steps.append([t.pick(["parse", "scan", "finalize", "parse"]), t.pick(exprs), t.n(len(INPUTS))])
            kinds.append("-")
            size.append(99)
    return {"steps": steps, "inputs": sorted({t.n(len(INPUTS)) for _ in range(6)})}


ARGS = {"base": 0, **{k: 1 for k in UNARY}, **{k: 2 for k in BINARY + ["pendadd"]}}


def sources(op):
    return [op[1 + n] for n in range(ARGS[op[0]])]


def closure(steps, i):
    out = {i}
    for j in sources(steps[i]):
        out |= closure(steps, j)
    return out


def repeats(steps, i):
    """a choice may have the same alternative twice: it is tried once, which can show in the grouping"""
    op = steps[i]
    if op[0] == "first3" or op[0] in ("first", "or", "each") and closure(steps, op[1]) & closure(steps, op[2]):
        return True
    return any(repeats(steps, j) for j in sources(op))


def fresh(steps, i, memo=None):
    """The expression of step i, built by itself: nothing is shared with other expressions (or, with memo, within it)."""
    if memo is not None and i in memo:
        return memo[i]
    op = steps[i]
    if op[0] == "base" and op[1] in FRESH:
        e = FRESH[op[1]]()
    else:
        e = apply(op, [fresh(steps, j, memo) for j in sources(op)])
    if memo is not None:
        memo[i] = e
    return e


def names(r, depth=0):
    out = []
    for k in sorted(set(r.keys())):
        v = r[k]
        if isinstance(v, ParseResults):
            out.append([k, plain(v), names(v, depth + 1) if depth < 4 else None])
        else:
            out.append([k, v])
    for x in r:
        if isinstance(x, ParseResults) and depth < 4:
            out.append(names(x, depth + 1))
    return out


def outcome(e, s, how="parse"):
    if how == "scan":
        o = call(lambda: [[plain(list(t)), a, b] for t, a, b in e.scan_string(s)])
        return ["ok", o.value] if o.ok else [o.kind]
    o = call(e.parse, s)
    if o.ok:
        tokens = o.value.as_list()
        while len(tokens) == 1 and isinstance(tokens[0], list):
            tokens = tokens[0]  # a | a is a, and a named top-level expression comes in a group
        return ["ok", tokens, names(o.value), o.value.start, o.value.end]
    return [o.kind] if o.kind == "fail" else [o.kind, type(o.value).__name__]


def check(case, ctx):
    steps = case["steps"]
    pool = {}
    usable = {}
    bad = set()
    uses = {}
    derived = 0

    def compare(i, s, how, after):
        try:
            f = fresh(steps, i, {} if repeats(steps, i) else None)
        except Exception as e:
            raise Violation(f"{describe(steps, i)} was built, but building it alone raises {type(e).__name__}")
        want = outcome(f, s, how)
        got = outcome(pool[i], s, how)
        if got != want:
            raise Violation(f"{after}: {how} of {s!r} with {describe(steps, i)} gives {got}, but {want} when built alone")
        return want[0] == "ok" and bool(want[1])

    for n, op in enumerate(steps):
        k = op[0]
        if k in ("parse", "scan", "finalize"):
            if op[1] in pool and steps[op[1]][0] != "pend":
                s = INPUTS[op[2]]
                if k == "finalize":
                    call(pool[op[1]].finalize)
                else:
                    compare(op[1], s, k, f"at step {n}")
            continue
        used = sources(op)
        if any(x not in pool for x in used):
            continue
        o = call(apply, op, [pool[x] for x in used])
        if not o.ok:
            ctx.label("refused")
            continue
        pool[n] = o.value
        if used:
            derived += 1
        for x in set(used):
            uses[x] = uses.get(x, 0) + 1
    accepted = False
    for i in pool:
        if steps[i][0] != "pend":
            for z in case["inputs"]:
                accepted |= compare(i, INPUTS[z], "parse", "at the end")
    if derived >= 4 and max(uses.values()) >= 2 and accepted:
        ctx.hit("history")


def describe(steps, i):
    op = steps[i]
    if op[0] == "base":
        return f"base{op[1]}"
    n = ARGS[op[0]]
    return f"{op[0]}({', '.join(describe(steps, op[1 + m]) for m in range(n))}; {op[-1]})"


SUBS = [Sub("history", cases(decode, 110), check, 3000, 150000)]
