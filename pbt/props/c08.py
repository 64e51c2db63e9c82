"""C08: parse results behave as the list of their tokens."""
import copy

from mo_parsing.results import ParseResults

from pbt import gram
from pbt.gen import GrammarGen, cases, inputs
from pbt.lib import Violation, call, expect, must, no_crash, plain, show
from pbt.runner import Sub

ID = "C08"
RULE = (
    "Cases: a random grammar (as C01, with names, groups, suppression, lookaheads, defaults, recursive references, parts with an "
    "action that returns numbers, lists or nothing) and 2-4 inputs. For the result of every accepted input, and every group in it, all access paths "
    "(iteration, len, length, truth, every index, slices, reversed, as_list, as_string, ==, copy, +, sum, value) are "
    "compared to the reference token list. Non-trivial: a result with at least 2 items."
)
COSTLY = True
ASSUMPTIONS = [
    "reference interpreter pbt/gram.py",
    "as_list() of a group gives the list in a list (as the existing tests expect), of anything else the list",
    "truth is not judged for results with names but no items",
]


def act_number(tokens):
    return len(tokens.as_string())


def act_list(tokens):
    return ["p", 7]


def act_none(tokens):
    return None


def act_empty(tokens):
    return []


def act_keep(tokens):
    return tokens


ACTS = [act_number, act_list, act_none, act_empty, act_keep]


def ref_act(k, node):
    if k == 0:
        return [len("".join(map(str, gram.flat_strings(node))))]
    if k == 1:
        return ["p", 7]
    if k == 3:
        return []
    return node.kids


class Ref(gram.Ref):
    def p_act(self, g, i):
        r = self.parse(g[1], i)
        if g[2] in (2, 4):
            return gram.Node(g, r.start, r.end, [r])
        return gram.Node(g, r.start, r.end, ref_act(g[2], r))

    def p_combine(self, g, i):
        r = self.parse(g[1], i)
        return gram.Node(g, i, r.end, [g[2].join(map(str, gram.flat_strings(r)))])


class Builder(gram.Builder):
    def _build(self, g):
        if g[0] == "act":
            return self.build(g[1]) / ACTS[g[2]]
        return gram.Builder._build(self, g)


class Gen(GrammarGen):
    def expr(self, depth, free):
        g = GrammarGen.expr(self, depth, free)
        if self.acts and self.t.n(12) == 11 and g[0] in ("lit", "word", "char", "and", "kw", "any"):
            g = ["act", g, self.t.n(len(ACTS))]
        return g

    acts = False


def decode(t):
    gg = Gen(t, rules=t.pick([0, 0, 1]), names=t.n(2) == 1, max_nodes=22)
    gg.acts = t.n(2) == 1
    g = gg.grammar()
    return {"g": g, "s": inputs(t, g, 3, 5), "slices": t.some(1, 3, lambda: [t.pick([None, 0, 1, -1, 2, -2]) for _ in range(2)] + [t.pick([None, 1, -1, 2])])}


def has_names(g):
    def named(x):
        return isinstance(x, list) and (bool(x) and x[0] in ("name", "ahead") or any(map(named, x)))

    return named(g["rules"]) or named(g["start"])


def flat(x):
    out = []
    for y in x:
        if isinstance(y, list):
            out.extend(flat(y))
        else:
            out.append(str(y))
    return out


def value(x):
    v = [value(y) if isinstance(y, list) else y for y in x]
    return None if not v else v[0] if len(v) == 1 else v


def check_result(r, want, case, names, where, ctx, depth=0):
    expect(isinstance(r, ParseResults), lambda: f"{where}: {type(r).__name__} is not ParseResults")
    items = list(r)
    got = plain(items)
    expect(got == want, lambda: f"{where}: iteration gives {got}, not {want}")
    n = len(want)
    expect(len(r) == n and r.length() == n, lambda: f"{where}: len is {len(r)}, length {r.length()} of {want}")
    if n or not names:
        expect(bool(r) == (n > 0), lambda: f"{where}: truth is {bool(r)} of {want}")
    for i in range(-n, n):
        x = plain(r[i])
        expect(x == want[i], lambda: f"{where}: [{i}] is {x}, not {want[i]}")
    for a, b, c in case["slices"]:
        x = plain(r[a:b:c])
        expect(x == want[a:b:c], lambda: f"{where}: [{a}:{b}:{c}] is {x}, not {want[a:b:c]}")
    x = plain(list(reversed(r)))
    expect(x == want[::-1], lambda: f"{where}: reversed gives {x}, not {want[::-1]}")
    x = r.as_list()
    expect(x == want or x == [want], lambda: f"{where}: as_list is {x}, not {want}")
    for sep in ("", ", "):
        x = r.as_string(sep) if sep else r.as_string()
        expect(x == sep.join(flat(want)), lambda: f"{where}: as_string({sep!r}) is {x!r}, not {sep.join(flat(want))!r}")
    expect(r == want, lambda: f"{where}: is not == {want}")
    expect(not (r != want), lambda: f"{where}: is != {want}")
    for other in (want + ["z"], want[:-1] if n else ["z"], ["z"] + want[1:] if n else ["a"]):
        expect(not (r == other), lambda: f"{where}: {want} is == {other}")
    if n or not names:
        expect((r == None) == (n == 0), lambda: f"{where}: {want} == None is {r == None}")  # noqa: E711
    if all(isinstance(x, str) for x in want):
        joined = "".join(want)
        expect(r == joined, lambda: f"{where}: {want} is not == {joined!r}")
        expect(not (r == joined + "z"), lambda: f"{where}: {want} is == {joined + 'z'!r}")
    if n == 1 and not isinstance(want[0], list) or not n and not names:
        for v in (0, 5, 2.5):
            expect((r == v) == (want == [v]), lambda: f"{where}: {want} == {v!r} is {r == v}")
    x = r.value()
    expect(x == value(want), lambda: f"{where}: value() is {x!r}, not {value(want)!r}")
    c = copy.copy(r)
    expect(plain(c) == want and len(c) == n, lambda: f"{where}: the copy gives {plain(c)}, not {want}")
    if n >= 2:
        ctx.hit("items")
    if depth < 6:
        for i, (x, w) in enumerate(zip(items, want)):
            if isinstance(w, list):
                check_result(x, w, case, names, f"{where}[{i}]", ctx, depth + 1)
    return got


def check(case, ctx):
    g = case["g"]
    names = has_names(g)
    e = Builder(g["rules"]).start(g["start"])
    seen = []
    for s in case["s"]:
        try:
            node = Ref(g, s).run()
        except gram.TooMuch:
            ctx.label("not judged")
            continue
        o = no_crash(call(e.parse, s), f"parse of {s!r}")
        if node is None or not o.ok:
            ctx.label("rejected")
            continue
        want = gram.tokens(node)
        if len(want) == 1 and isinstance(want[0], list) and plain(o.value) != want:
            want = want[0]  # the result is the group itself
        check_result(o.value, want, case, names, f"result of {s!r}", ctx)
        ctx.label("accepted")
        seen.append((s, o.value, want))
    if len(seen) > 1:
        (s, a, x), (z, b, y) = seen[:2]
        both = must(lambda: a + b, what="concatenation")
        expect(plain(both) == x + y, lambda: f"results of {s!r} and {z!r}: + gives {plain(both)}, not {x + y}")
        both = must(lambda: sum([a, b]), what="sum")
        expect(plain(both) == x + y, lambda: f"results of {s!r} and {z!r}: sum gives {plain(both)}, not {x + y}")
        expect(plain(a) == x and plain(b) == y, "concatenation changed its operands")


SUBS = [Sub("list", cases(decode, 150), check, 9000, 300000)]
