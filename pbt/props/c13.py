"""C13: a parse depends only on grammar and input."""
from mo_parsing import And, Forward, Group, Literal, OneOrMore, Word, whitespaces
from mo_parsing import helpers
from mo_parsing.infix import LEFT_ASSOC, RIGHT_ASSOC, delimited_list, infix_notation
from mo_parsing.regex import Regex
from mo_parsing.utils import alphas, nums
from mo_parsing.whitespaces import Whitespace

from pbt import gram
from pbt.gen import GrammarGen, cases, inputs
from pbt.lib import Violation, call, excerpt, plain
from pbt.runner import Sub

ID = "C13"
RULE = (
    "Cases: 2-3 grammars (random, or of fixed kinds: regex, infix, indentation, quoted strings) in different whitespace contexts, 3 inputs "
    "each, and a history of 5-16 steps: parse, failing parse, scan and split (also started, advanced step by step in between, and abandoned), "
    "matches, search, transform, and parses from within a parse action of another. Every outcome (tokens, positions, error text) is "
    "compared to the one of a new copy of the grammar used for nothing else, and all results are read again at the end. Non-trivial: at least 5 "
    "steps on two grammars, with an iterator or a nested parse or a failing parse among them."
)
COSTLY = True
ASSUMPTIONS = [
    "the new copy of a grammar is used in the same process, in between the steps",
]


def block():
    stmt = Forward()
    body = helpers.indented_block(stmt)
    stmt << (Group(Word(alphas) + ":" + body) | Word(alphas))
    return OneOrMore(stmt)


def infix():
    return infix_notation(Word(nums), [("-", 1, RIGHT_ASSOC), ("*", 2, LEFT_ASSOC), ("+", 2, LEFT_ASSOC)])


FIXED = [
    (block, ["a:\n  b\n  c\nd", "a:\n  b:\n    c\n d\ne", "a:\nb", "a", "a:\n  b\n c", "x:\n   y\n   z:\n     w"]),
    (infix, ["1+2*3", "-1", "1+", "(1+2)*3", "1 2", "((1)"]),
    (lambda: Regex(r"(?P<x>a+)(b|c)").capture_groups(), ["aab", "ac", "a", "b", "ab ab"]),
    (lambda: helpers.QuotedString('"', esc_char="\\"), ['"a b"', '"a', 'a "b"', '"\\""']),
    (lambda: delimited_list(Word("ab")), ["a,b", "a, b ,a", "a,", ",", "a,b a"]),
    (lambda: helpers.nested_expr("(", ")"), ["(a b)", "((a) b)", "(a", "()", "a"]),
    (lambda: helpers.counted_array(Word("ab")), ["2 a b", "1 a b", "3 a", "0", "a"]),
]
CONTEXTS = [None, "", " ", "#", "b"]


def decode(t):
    gs = []
    for _ in range(t.between(2, 3)):
        if t.n(3) == 2:
            k = t.n(len(FIXED))
            gs.append({"fixed": k, "s": [t.pick(FIXED[k][1]) for _ in range(3)], "ws": 0})
        else:
            gg = GrammarGen(t, rules=t.pick([0, 0, 1]), names=t.n(3) == 2, max_nodes=14)
            g = gg.grammar()
            s = inputs(t, g, 3, 3)
            gs.append({"g": g, "s": s, "ws": t.n(len(CONTEXTS))})
    steps = []
    for _ in range(t.between(5, 16)):
        k = t.pick(["parse", "parse", "start", "next", "next", "nested", "search", "matches", "transform", "split", "all", "scan", "drop"])
        steps.append([k, t.n(len(gs)), t.n(3), t.n(len(gs)), t.n(3), t.n(3)])
    return {"gs": gs, "steps": steps}


def make(spec):
    if "fixed" in spec:
        return FIXED[spec["fixed"]][0]()
    ws = CONTEXTS[spec["ws"]]
    if ws is None:
        return gram.build(spec["g"])
    if ws in ("#", "b"):
        with Whitespace() as w:
            w.add_ignore(Regex("#[^\n]*\n") if ws == "#" else Literal("b"))
            return gram.build(spec["g"])
    with Whitespace(ws):
        return gram.build(spec["g"])


def result(r):
    return [r.as_list(), r.start, r.end, sorted((k, plain(r[k])) for k in set(r.keys()))]


def outcome(fn, *args, **kwargs):
    o = call(fn, *args, **kwargs)
    if o.ok:
        return ["ok", o.value]
    e = o.value
    if o.kind == "fail":
        return ["fail", e.loc, excerpt(e)]
    return ["crash", type(e).__name__]


def run(e, how, s):
    if how == "parse":
        return outcome(lambda: result(e.parse(s)))
    if how == "all":
        return outcome(lambda: result(e.parse(s, parse_all=True)))
    if how == "matches":
        return outcome(lambda: bool(e.matches(s)))
    if how == "search":
        return outcome(lambda: [result(r) for r in e.search_string(s).tokens])
    if how == "transform":
        return outcome(lambda: e.transform_string(s))
    if how == "split":
        return outcome(lambda: [x for x in e.split(s)])
    if how == "scan":
        return outcome(lambda: [[result(r), a, b] for r, a, b in e.scan_string(s)])
    raise KeyError(how)


def noop(t, l, z):
    return None


def check(case, ctx):
    gs = case["gs"]
    live = [make(spec) for spec in gs]
    fresh = {}
    iters = []  # [iterator, kind, grammar, input, items so far]
    kept = []
    special = False
    used = set()

    def want(how, g, s):
        key = (how, g, s)
        if key not in fresh:
            e = make(gs[g])
            if how == "nested":
                fresh[key] = run(And([e], whitespaces.CURRENT) / noop, "parse", s)
            else:
                fresh[key] = run(e, how, s)
        return fresh[key]

    def compare(got, how, g, s, n):
        w = want(how, g, s)
        if got != w:
            raise Violation(f"step {n}: {how} of {s!r} with grammar {g} gives {got}, but a new copy of the grammar gives {w}")
        return w

    def advance(it, n, steps):
        for _ in range(steps):
            try:
                x = next(it[0])
            except StopIteration:
                compare(["ok", it[4]], it[1], it[2], it[3], n)
                iters.remove(it)
                return
            except Exception as c:
                w = want(it[1], it[2], it[3])
                if w[0] == "ok":
                    raise Violation(f"step {n}: {it[1]} of {it[3]!r} with grammar {it[2]} raised {type(c).__name__}: {excerpt(c)}, but alone it gives {w}")
                iters.remove(it)
                return
            it[4].append(x if it[1] == "split" else [result(x[0]), x[1], x[2]])
            w = want(it[1], it[2], it[3])
            if w[0] == "ok" and w[1][: len(it[4])] != it[4]:
                raise Violation(f"step {n}: {it[1]} of {it[3]!r} with grammar {it[2]} goes {it[4]}, but alone it gives {w[1]}")

    for n, (k, g, i, g2, i2, m) in enumerate(case["steps"]):
        s, s2 = gs[g]["s"][i % len(gs[g]["s"])], gs[g2]["s"][i2 % len(gs[g2]["s"])]
        if k in ("start",):
            how = ["scan", "split", "scan"][m]
            o = call(lambda: iter(live[g].scan_string(s) if how == "scan" else live[g].split(s)))
            if o.ok:
                iters.append([o.value, how, g, s, []])
                advance(iters[-1], n, 1)
                special = True
                used.add(g)
            continue
        if k == "next":
            if iters:
                advance(iters[(i + g2) % len(iters)], n, 1 + m)
            continue
        if k == "drop":
            if iters:
                it = iters.pop(0)
                call(it[0].close)
            continue
        used.add(g)
        if k == "nested":
            inner = []

            def act(t, l, z):
                inner.append(run(live[g2], "parse", s2))
                if m == 2 and iters:
                    advance(iters[0], n, 1)

            outer = And([live[g]], whitespaces.CURRENT) / act
            got = run(outer, "parse", s)
            for x in inner:
                compare(x, "parse", g2, s2, n)
            compare(got, "nested", g, s, n)
            special = special or bool(inner)
            continue
        got = run(live[g], k, s)
        compare(got, k, g, s, n)
        if got[0] == "fail":
            special = True
        if k == "parse" and got[0] == "ok":
            o = call(live[g].parse, s)
            if o.ok:
                kept.append((n, o.value, result(o.value)))
    for it in list(iters):
        advance(it, len(case["steps"]), 50)
    for n, r, was in kept:
        now = result(r)
        if now != was:
            raise Violation(f"the result of step {n} was {was}, and is {now} at the end")
    if special and len(used) > 1 and len(case["steps"]) >= 5:
        ctx.hit("history")


SUBS = [Sub("history", cases(decode, 200), check, 2600, 150000)]
