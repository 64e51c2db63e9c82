"""C09: named results are found by name, in order, within their group."""
from mo_parsing.results import ParseResults

from pbt import gram
from pbt.gen import GrammarGen, cases, inputs
from pbt.lib import call, expect, no_crash, plain
from pbt.runner import Sub

ID = "C09"
RULE = (
    "Cases: a random grammar (as C01) with names, also repeated ones, on any node, and 2-4 inputs. For the result of every accepted "
    "input, and for every group and named part reached from it, each name is looked up by [], get, in, keys and items, and compared to the "
    "parts with that name visible there in the reference parse tree. Non-trivial: at least two names with values, or a name "
    "with several values, at one level."
)
COSTLY = True
ASSUMPTIONS = [
    "reference interpreter pbt/gram.py",
    "whether a name whose part matched no tokens is listed by keys() is not judged",
    "the top-level expression is a group when names are used",
    "a name inside a named part that is nothing but a named reference to a named group is not judged",
    "a part that is nothing but one named part or group is given as that part; in and get() ignore names with an empty value",
]
POOL = ["n", "m", "x", "y"]


class Gen(GrammarGen):
    def expr(self, depth, free):
        g = GrammarGen.expr(self, depth, free)
        if g[0] != "name" and self.t.n(4) == 3 and not (g[0] == "ref" and self.rule_named == 1):
            g = ["name", g, self.name(g)]
        return g

    def rule(self):
        # the references to it are named, or the rule, or both
        self.rule_named = self.t.n(3)
        g = self.expr(self.depth - 1, False)
        while g[0] == "name" and not self.rule_named:
            g = g[1]
        return self.consuming(g)

    def node(self, k, depth, free):
        g = GrammarGen.node(self, k, depth, free)
        if g[0] == "many" and g[2:4] == [1, 1]:
            g[4] = 0  # x*1 is x itself
        if g[0] == "and" and (1, "ahead") in self.kinds and self.t.n(6) == 5 and not any(x[0] in ("name", "ref") for x in gram.walk(g)):
            # look ahead at what follows
            i = self.t.n(len(g[1]))
            ahead = ["ahead", ["name", g[1][i], self.t.pick(POOL)]]
            g = ["and", g[1][:i] + [ahead] + g[1][i:], *g[2:]]
        return g

    def name(self, g):
        self.named += 1
        n = self.t.pick(POOL)
        inner = [x[2] for x in gram.walk(g) if x[0] == "name"]
        if n in inner and any(x[0] in ("many", "opt", "suppress") for x in gram.walk(g)):  # refused by the library
            n = next((p for p in POOL if p not in inner), "z%d" % self.named)
        return n


def decode(t):
    gg = Gen(t, rules=t.pick([0, 0, 1]), names=True, max_nodes=24)
    g = gg.grammar()
    return {"g": g, "s": inputs(t, g, 2, 4)}


class Ref(gram.Ref):
    def p_name(self, g, i):
        r = self.parse(g[1], i)
        if r.kind == "name" or r.name:
            r = gram.Node(["named"], r.start, r.end, [r])
        r2 = gram.Node(r.spec, r.start, r.end, r.kids)
        r2.name = g[2]
        return r2

    def p_combine(self, g, i):
        r = self.parse(g[1], i)
        return gram.Node(g, i, r.end, [g[2].join(gram.flat_strings(r))])


def visible(node):
    for x in node.kids:
        if not isinstance(x, gram.Node):
            continue
        if x.name:
            yield x.name, x
        elif x.kind != "group":
            yield from visible(x)


def units(node):
    """tokens, groups and named parts of a part"""
    for x in node.kids:
        if not isinstance(x, gram.Node) or x.name or x.kind == "group":
            yield x
        elif x.kind == "ahead":
            if list(visible(x)):
                yield x
        else:
            yield from units(x)


def items_of(part):
    return gram.tokens(part)


def same(got, want):
    if isinstance(got, ParseResults):
        p = plain(got)
        return p == want or len(want) == 1 and p == want[0]
    return len(want) == 1 and got == want[0]


def level(r, node, names, hidden, where, ctx, depth=0):
    model = {}
    for n, part in visible(node):
        model.setdefault(n, []).append(part)
    keys = list(r.keys())
    expect(len(keys) == len(set(keys)), lambda: f"{where}: keys() repeats a name: {keys}")
    items = dict(r.items())
    expect(list(items) == keys, lambda: f"{where}: items() has {list(items)}, keys() has {keys}")
    valued = 0
    for n in names:
        parts = model.get(n, [])
        want = [x for p in parts for x in items_of(p)]
        got = r[n]
        if want:
            valued += 1
            expect(same(got, want), lambda: f"{where}: [{n!r}] is {plain(got)!r}, not {want!r}")
            if len(want) == 1 and not isinstance(want[0], list) and not any(list(visible(p)) for p in parts) and want[0] != "" and not hidden:
                expect(not isinstance(got, ParseResults), lambda: f"{where}: [{n!r}] is {got!r}, not the single token {want[0]!r}")
            if isinstance(got, ParseResults):
                p, a = plain(got), got.as_list()
                expect(a in (p, [p]), lambda: f"{where}: [{n!r}].as_list() is {a!r}, but its parts are {p!r}")
            if want not in ([""], [[]]):
                expect(n in r, lambda: f"{where}: {n!r} is not in the result, but its value is {want!r}")
                d = r.get(n, DEFAULT)
                expect(d is not DEFAULT and same(d, want), lambda: f"{where}: get({n!r}) is {d!r}, not {want!r}")
            expect(n in items, lambda: f"{where}: {n!r} is not in keys() {keys}")
            values = list(r.values())
            expect([plain(v) for v in values[keys.index(n)]] == [plain(v) for v in items[n]], lambda: f"{where}: values() disagrees with items() about {n!r}")
            if n not in hidden:
                expect(agree(items[n], parts), lambda: f"{where}: items()[{n!r}] gives {plain(items[n])!r}, not the parts {[items_of(p) for p in parts]!r}")
            if len(want) > 1:
                ctx.hit("several values")
        elif not parts and n not in hidden:
            expect(not isinstance(got, str) and plain(got) == [] and not got, lambda: f"{where}: [{n!r}] is {got!r}, but no such part matched")
            expect(n not in r, lambda: f"{where}: {n!r} is in the result, but no such part matched")
            expect(r.get(n, DEFAULT) is DEFAULT, lambda: f"{where}: get({n!r}) is not the default, but no such part matched")
            expect(n not in items, lambda: f"{where}: {n!r} is in keys(), but no such part matched")
        if len(parts) == 1 and want and depth < 6:
            # names inside the named part
            part = parts[0]
            if part.kind != "group":
                us = list(units(part))
                full = [u for u in us if not isinstance(u, gram.Node) or items_of(u) or u.kind == "group"]
                if hidden or len(full) == 1 < len(us):
                    continue  # whether parts that matched no tokens are kept is not judged
                if len(us) == 1 and isinstance(us[0], gram.Node):
                    part = us[0]  # nothing but this named part or group: given as that
                    inner = list(units(part))
                    if len(inner) == 1 and isinstance(inner[0], gram.Node) and inner[0].kind == "group" and inner[0].name:
                        continue  # a named reference to a named group
            below = [k for k, p in visible(part) if items_of(p)]
            if below:
                ctx.label("inner names")
                expect(isinstance(got, ParseResults), lambda: f"{where}: [{n!r}] is {got!r}, its names {below} are lost")
                level(got, part, names, hidden, f"{where}[{n!r}]", ctx, depth + 1)
    if valued > 1:
        ctx.hit("several names")
    if valued:
        ctx.label("names")
    # groups
    if depth < 6:
        gs = [x for x in r if isinstance(x, ParseResults)]
        ns = list(groups(node))
        if len(gs) == len(ns):
            for i, (a, b) in enumerate(zip(gs, ns)):
                level(a, b, names, hidden, f"{where} group {i}", ctx, depth + 1)


def agree(got, parts):
    got = [plain(p) if isinstance(p, ParseResults) else [p] for p in got]
    want = [items_of(p) for p in parts if items_of(p)]
    at = {0}  # how many wanted parts were seen
    for x in got:
        after = set(at) if not x else set()  # parts that matched no tokens may be left out
        after.update(i + 1 for i in at if i < len(want) and (want[i] == x or want[i] == [x]))
        at = after
    return len(want) in at


def groups(node):
    for x in node.kids:
        if isinstance(x, gram.Node):
            if x.kind == "group":
                yield x
            elif x.kind not in ("ahead", "not"):
                yield from groups(x)


DEFAULT = object()


def check(case, ctx):
    g = case["g"]
    e = gram.build(g)
    names = set(POOL)
    for r in g["rules"] + [g["start"]]:
        names.update(x[2] for x in gram.walk(r) if x[0] == "name")
    hidden = set()  # names inside suppressed parts: whether they are listed is not judged
    for r in g["rules"] + [g["start"]]:
        for x in gram.walk(r):
            if x[0] == "suppress":
                hidden.update(y[2] for y in gram.walk(x) if y[0] == "name")
                if any(y[0] == "ref" for y in gram.walk(x)):
                    hidden.update(names)
    for s in case["s"]:
        try:
            node = Ref(g, s).run()
        except gram.TooMuch:
            ctx.label("not judged")
            continue
        o = no_crash(call(e.parse, s), f"parse of {s!r}")
        if node is None or not o.ok:
            ctx.label("rejected")
            continue
        ctx.label("accepted")
        level(o.value, node, sorted(names), hidden, f"result of {s!r}", ctx)


SUBS = [Sub("names", cases(decode, 150), check, 12000, 500000)]
