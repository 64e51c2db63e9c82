"""C10: every part of a result knows where it matched."""
import itertools

from mo_parsing import And, Group, whitespaces
from mo_parsing import helpers
from mo_parsing.results import ParseResults

from pbt import gram
from pbt.gen import GrammarGen, cases, inputs
from pbt.lib import call, expect, no_crash
from pbt.props import c18
from pbt.runner import Sub
from pbt.scopes import BuilderMixin, GenMixin, ScopedMixin, WHITES, context, ignores, samples

ID = "C10"
RULE = (
    "Cases: a random grammar (as C01) with groups, located_expr, originalTextFor and location-recording actions at any node, and 2-4 "
    "inputs with varied whitespace. For every accepted input the start and end of each group in the result, the locations given by "
    "located_expr and actions and the text given by originalTextFor are compared to the reference spans. Non-trivial: two or "
    "more groups that match something, at least one of them not at position 0. scopes: the same with parts built in whitespace contexts "
    "of their own (as C05), so that a repetition may match later than where it is tried. "
    "infix: operations of infix notation (as C18), with suppressed symbols and parentheses, against the spans of an independent reader; "
    "non-trivial: an operation that is not at position 0."
)
COSTLY = True
ASSUMPTIONS = [
    "reference interpreter pbt/gram.py",
    "ends are compared modulo trailing whitespace; starts of parts that match nothing are not judged",
    "a sequence (and located_expr, originalTextFor) of which the first part skips more whitespace than its surroundings is not judged",
]


class Mark:
    """A value computed from positions."""

    def __init__(self, kind, a, b):
        self.kind, self.a, self.b = kind, a, b

    def __repr__(self):
        return f"<{self.kind} of {self.a}:{self.b}>"


def at(t, l, s):
    return [l]


def span(t, l, s):
    return [t.start, t.end]


class Ref(gram.Ref):
    def p_loc(self, g, i):
        r = self.parse(g[1], i)
        return gram.Node(["group"], r.start, r.end, [Mark("start", r.start, r.end), gram.Node(["group"], r.start, r.end, [r]), Mark("end", r.start, r.end)])

    def p_orig(self, g, i):
        r = self.parse(g[1], i)
        return gram.Node(["group"], r.start, r.end, [Mark("text", r.start, r.end)])

    def p_at(self, g, i):
        r = self.parse(g[1], i)
        return gram.Node(["group"], r.start, r.end, [Mark("start", r.start, r.end)])

    def p_span(self, g, i):
        r = self.parse(g[1], i)
        return gram.Node(["group"], r.start, r.end, [Mark("start", r.start, r.end), Mark("end", r.start, r.end)])


class Builder(gram.Builder):
    def _build(self, g):
        if g[0] == "loc":
            return helpers.located_expr(self.build(g[1]))
        if g[0] == "orig":
            return helpers.originalTextFor(self.build(g[1]))
        if g[0] == "at":
            return Group(And([self.build(g[1])], whitespaces.CURRENT) / at)
        if g[0] == "span":
            return Group(And([self.build(g[1])], whitespaces.CURRENT) / span)
        return gram.Builder._build(self, g)


class Gen(GrammarGen):
    wrap = 0

    def expr(self, depth, free):
        g = GrammarGen.expr(self, depth, free)
        if g[0] != "combine" and self.wrap and self.t.n(4) == 3:
            g = [self.t.pick(["group", "group", "loc", "orig", "at", "span"]), g]
        return g

    def node(self, k, depth, free):
        if k == "combine":
            self.wrap, keep = 0, self.wrap
            try:
                return GrammarGen.node(self, k, depth, free)
            finally:
                self.wrap = keep
        return GrammarGen.node(self, k, depth, free)


def decode(t):
    rules = t.pick([0, 0, 1])
    gg = Gen(t, rules=rules, max_nodes=22, kinds=[
        (6, "and"), (5, "first"), (4, "many"), (4, "opt"), (2, "or"), (2, "not"), (1, "ahead"), (4, "group"), (1, "suppress")])
    gg.wrap = 1
    g = gg.grammar()
    return {"g": g, "s": inputs(t, g, 2, 4)}


def unit(node):
    """tokens, marks and groups"""
    for x in node.kids:
        if not isinstance(x, gram.Node) or x.kind == "group":
            yield x
        elif x.kind not in ("ahead", "not"):
            yield from unit(x)


def compare(r, node, s, where, ctx, stats, depth=0):
    if node.end > node.start:
        stats.append(node.start)
        expect(r.start == node.start, lambda: f"{where}: starts at {r.start}, not {node.start}")
    expect(0 <= r.start <= r.end <= len(s), lambda: f"{where}: span {r.start}:{r.end} is not in the input")
    expect(s[: r.end].rstrip() == s[: node.end].rstrip(), lambda: f"{where}: ends at {r.end}, not {node.end}")
    items, want = list(r), list(unit(node))
    expect(len(items) == len(want), lambda: f"{where}: has {len(items)} items, not {len(want)}")
    for i, (x, w) in enumerate(zip(items, want)):
        if isinstance(w, gram.Node):
            expect(isinstance(x, ParseResults), lambda: f"{where}[{i}]: {x!r} is not a group")
            compare(x, w, s, f"{where}[{i}]", ctx, stats, depth + 1)
        elif isinstance(w, Mark):
            a, b = w.a, w.b
            if w.kind == "text":
                expect(isinstance(x, str) and x.strip() == s[a:b].strip(), lambda: f"{where}[{i}]: original text is {x!r}, not {s[a:b]!r}")
            elif isinstance(x, bool) or not isinstance(x, int):
                expect(False, lambda: f"{where}[{i}]: location is {x!r}")
            elif w.kind == "end":
                expect(s[:x].rstrip() == s[:b].rstrip(), lambda: f"{where}[{i}]: end is given as {x}, not {b}")
            elif b > a:
                expect(x == a, lambda: f"{where}[{i}]: start is given as {x}, not {a}")
            if b > a:
                ctx.label(w.kind)


def check(case, ctx):
    g = case["g"]
    e = Builder(g["rules"]).start(["group", ["and", [g["start"]], 0]])
    judge(case, ctx, e, lambda s: Ref({"rules": g["rules"], "start": ["group", g["start"]]}, s))


class ScopedRef(ScopedMixin, Ref):
    later = True

    def parse(self, g, i):
        r = Ref.parse(self, g, i)
        if g[0] in ("loc", "orig", "at", "span") and r.end > r.start > i:
            raise gram.TooMuch()
        return r


class ScopedBuilder(BuilderMixin, Builder):
    pass


class ScopedGen(GenMixin, Gen):
    pass


def decode_scopes(t):
    gg = ScopedGen(t, rules=t.pick([0, 0, 1]), max_nodes=22, kinds=[
        (5, "and"), (3, "first"), (4, "many"), (3, "opt"), (1, "or"), (4, "group"), (1, "suppress"), (7, "ws")])
    gg.wrap = 1
    rules = [gg.rule() for _ in range(gg.nrules)]
    start = ["and", [["lit", "<"], ["group", gg.expr(4, True)], ["opt", ["lit", ">"], None]], 0]
    outer = [t.pick(WHITES), ignores(t)]
    return {"g": {"rules": rules, "start": start}, "outer": outer, "s": samples(t, rules, start, outer, 2, 4, True)}


def check_scopes(case, ctx):
    g = case["g"]
    white, ign = case["outer"]
    with context(white, ign):
        e = ScopedBuilder(g["rules"]).start(["group", g["start"]])
    judge(case, ctx, e, lambda s: ScopedRef({"rules": g["rules"], "start": ["group", g["start"]]}, s, white, ign))


def judge(case, ctx, e, ref):
    for s in case["s"]:
        try:
            node = ref(s).run()
        except gram.TooMuch:
            ctx.label("not judged")
            continue
        o = no_crash(call(e.parse, s), f"parse of {s!r}")
        if node is None or not o.ok:
            ctx.label("rejected")
            continue
        ctx.label("accepted")
        stats = []
        compare(o.value, node, s, f"result of {s!r}", ctx, stats)
        if len(stats) >= 2 and max(stats) > 0:
            ctx.hit("groups")


def decode_infix(t):
    case = c18.decode(t)
    for row in case["levels"]:
        row[4] = 0
    return case


def check_infix(case, ctx):
    levels, par = case["levels"], case["par"]
    if not levels:
        return
    e = Group(c18.table(levels, par, []))
    noise = itertools.cycle(case["noise"] or [0])
    for x in case["trees"]:
        tokens = c18.render(x, levels, noise)
        spans, at = [], []
        x = c18.read(tokens, levels, spans)
        s = c18.write(tokens, par, noise, at)
        o = no_crash(call(e.parse, s, parse_all=True), f"parse of {s!r}")
        if not o.ok or isinstance(x, str):
            continue
        where = {id(y): (at[a][0], at[b][1]) for y, a, b in spans}
        operations(o.value, [x], where, s, ctx)


def operations(r, kids, where, s, ctx):
    """r is the result with the operations kids"""
    groups = [y for y in r if isinstance(y, ParseResults)]
    kids = [k for k in kids if not isinstance(k, str)]
    if len(groups) != len(kids):
        ctx.label("another tree")
        return
    for y, k in zip(groups, kids):
        a, b = where[id(k)]
        if a > 0:
            ctx.hit("operations")
        expect(
            y.start == a and s[: y.end].rstrip() == s[:b].rstrip(),
            lambda: f"the operation {s[a:b]!r} in {s!r} has the span {y.start}:{y.end}, not {a}:{b}",
        )
        operations(y, k[2:], where, s, ctx)


SUBS = [
    Sub("spans", cases(decode, 150), check, 14000, 600000),
    Sub("scopes", cases(decode_scopes, 150), check_scopes, 6000, 300000),
    Sub("infix", cases(decode_infix, 200), check_infix, 1000, 80000),
]
