"""C30: editing a result by name changes that name and nothing else."""
from mo_parsing import Literal
from mo_parsing.results import ParseResults

from pbt import gram
from pbt.gen import inputs, tape_strategy, cases
from pbt.lib import Violation, call, expect, must, no_crash, plain
from pbt.props import c09
from pbt.runner import Sub

ID = "C30"
COSTLY = True
RULE = (
    "Cases: a random grammar with names, also repeated, nested, on groups and on references to rules; an accepted input; and a history of 1-6 edits: "
    "assign a value (text, number, list, tuple, a part of the result) to a name that is or is not in the result, assign None, delete, and attempts to edit "
    "by index or through a missing name; at the top level or in a group inside, after the parse or in a parse action. After each edit the lookup of all names, "
    "keys() and the items are compared to a model made from the reference parse; at the end the input is parsed again, which must "
    "give the unedited result. Non-trivial: an edit of a name that was parsed, or two edits of one name."
)
ASSUMPTIONS = [
    "reference interpreter pbt/gram.py",
    "named parts that matched no tokens are not judged",
    "an assigned value takes the place of the first part with the name, the other parts with the name are erased; without such a part it is no item of the list",
    "names inside a named part are not part of the level around it (C09)",
    "edits are made through the top level, a group, or a named group",
]
NO_RESULTS = Literal("a").parse("a")["zz"]
NAMES = ["n", "m", "x", "y", "new", "other"]
KINDS = [(6, "and"), (4, "first"), (4, "many"), (3, "opt"), (4, "group")]


class Gen(c09.Gen):
    def __init__(self, t, **kw):
        c09.Gen.__init__(self, t, **kw)
        self.kinds = KINDS


def decode(t):
    gg = Gen(t, rules=t.pick([0, 1, 0, 1]), names=True, max_nodes=18)
    g = gg.grammar()
    if t.chance(1, 3):
        # the top level is no group
        if g["start"][0] == "group" and (g["start"][1][0] == "and" and len(g["start"][1][1]) > 1 or g["start"][1][0] == "opt"):
            g["start"] = g["start"][1]
    edits = []
    for _ in range(t.between(1, 6)):
        op = t.pick(["set", "set", "set", "del", "none", "missing", "index"])
        edits.append([op, t.n(3), t.pick(NAMES), value(t)])
    return {"g": g, "s": inputs(t, g, 2, 3), "edits": edits, "action": t.chance(1, 4)}


def value(t):
    k = t.n(5)
    if k == 0:
        return ["list", [t.pick(["p", 1, "q"]) for _ in range(t.between(0, 3))]]
    if k == 1:
        return ["tuple", [t.pick(["p", 1, "q"]) for _ in range(t.between(1, 2))]]
    if k == 2:
        return ["part", t.pick(NAMES)]
    return ["one", t.pick(["v", 7, "", 0])]


# --------------------------------------------------------------------------- model: segments [name, items, kind]; a group is a Level
class Level:
    def __init__(self, node):
        self.node = node
        self.segs = list(segments(node))

    def items(self):
        return render([x for n, v, kind in self.segs if kind != "note" for x in v])

    def parts(self, name):
        return [x for n, v, kind in self.segs if n == name for x in v]

    def lookup(self, name):
        return render(self.parts(name))

    def names(self):
        return {n for n, v, kind in self.segs if n}

    def valued(self):
        return {n for n, v, kind in self.segs if n and v}

    def groups(self):
        return [x for n, v, kind in self.segs if kind != "note" for x in v if isinstance(x, Level)]

    def unclear(self, name):
        # a part that is no group, but has one group only: whether the value gets into a group is not judged
        first = [s for s in self.segs if s[0] == name][:1]
        return any(kind == "part" and len(v) == 1 and isinstance(v[0], Level) for _, v, kind in first)

    def is_group(self, name):
        return [kind for n, _, kind in self.segs if n == name] == ["group"]

    def delete(self, name):
        self.segs = [s for s in self.segs if s[0] != name]

    def assign(self, name, values):
        out, done = [], False
        for s in self.segs:
            if s[0] != name:
                out.append(s)
            elif not done:
                done = True
                out.append([name, [list(values)] if s[2] == "group" else list(values), s[2]])
        if not done:
            out.append([name, list(values), "note"])
        self.segs = out


def render(items):
    return [x.items() if isinstance(x, Level) else x for x in items]


def segments(node):
    for x in node.kids:
        if not isinstance(x, gram.Node):
            yield [None, [x], "token"]
        elif x.name:
            yield [x.name, units(x), "group" if x.kind == "group" else "part"]
        elif x.kind == "group":
            yield [None, [Level(x)], "token"]
        else:
            yield from segments(x)


def units(node):
    if not isinstance(node, gram.Node):
        return [node]
    if node.kind == "group":
        return [Level(node)]
    return [u for x in node.kids for u in units(x)]


def verify(r, level, where):
    got, want = plain(r), level.items()
    expect(got == want, lambda: f"{where}: items {got!r}, not {want!r}")
    expect(len(r) == len(want), lambda: f"{where}: len() is {len(r)}, not {len(want)}")
    keys = list(r.keys())
    expect(
        level.valued() <= set(keys) <= level.names() | EMPTY,
        lambda: f"{where}: keys() {keys}, not {sorted(level.names())}",
    )
    for n in NAMES:
        want = level.lookup(n)
        got = plain(r[n])
        expect(
            got == want or len(want) == 1 and got == want[0] or not want and got == [[]] ,
            lambda: f"{where}: [{n!r}] is {got!r}, not {want!r}",
        )
        if not want:
            expect(n not in r, lambda: f"{where}: {n!r} is in the result")
        elif want not in ([""], [[]]):
            expect(n in r, lambda: f"{where}: {n!r} is not in the result")


EMPTY = frozenset()


def places(r, level):
    """The result and the groups in it, with their models."""
    out = [(r, level)]
    gs = [x for x in r if isinstance(x, ParseResults)]
    ls = level.groups()
    if len(gs) == len(ls):
        for g, x in zip(gs, ls):
            out += places(g, x)
    return out


def edit(r, top, edits, ctx, what):
    parsed = {}
    touched = set()
    for i, (op, where, name, val) in enumerate(edits):
        spots = places(r, top)
        where %= len(spots)
        at, lv = spots[where]
        before = parsed.setdefault(id(lv), lv.valued())
        done = f"{what} after {edits[: i + 1]!r}"
        if op == "index":
            call(at.__setitem__, 0, "v")  # refused
        elif op == "missing":
            if lv.parts(name):
                continue
            missing = at[name]
            if isinstance(missing, ParseResults):
                call(missing.__setitem__, "x", "v")  # refused, or no effect
                call(missing.__setitem__, "zz", "v")
        elif op == "del":
            must(at.__delitem__, name, what=f"del of {name!r}; {done}")
            lv.delete(name)
        elif op == "none":
            must(at.__setitem__, name, None, what=f"assign of None; {done}")
            lv.delete(name)
        else:
            kind, v = val
            if kind == "part":
                values = lv.parts(v)
                if len(values) == 1 and isinstance(values[0], Level) and not values[0].names() and lv.is_group(v):
                    values = values[0].items()  # a group: its contents
                if any(not isinstance(x, (str, int)) for x in values):
                    continue  # the groups would be shared
                v = at[v]
            elif kind == "one":
                values = [v]
            else:
                values = list(v)
                v = tuple(v) if kind == "tuple" else list(v)
            if not values or lv.unclear(name):
                continue
            must(at.__setitem__, name, v, what=f"assign to {name!r}; {done}")
            lv.assign(name, values)
        if op in ("set", "del", "none"):
            if name in before:
                ctx.hit("parsed name edited")
            if (id(lv), name) in touched:
                ctx.hit("edited twice")
            touched.add((id(lv), name))
        verify_all(r, top, done)


def verify_all(r, top, what):
    for i, (at, lv) in enumerate(places(r, top)):
        verify(at, lv, f"{what}, level {i}")


def check(case, ctx):
    g = case["g"]
    e = gram.build(g)
    for s in case["s"]:
        try:
            node = c09.Ref(g, s).run()
        except gram.TooMuch:
            ctx.label("not judged")
            continue
        o = no_crash(call(e.parse, s), f"parse of {s!r}")
        if node is None or not o.ok:
            ctx.label("rejected")
            continue
        if isinstance(node, gram.Node) and (node.kind == "name" or node.name):
            continue
        if hollow(node):
            ctx.label("a part without tokens")
            continue
        ctx.label("accepted")
        first = plain(o.value)
        verify_all(o.value, Level(node), f"result of {s!r} before edits")
        edit(o.value, Level(node), case["edits"], ctx, f"result of {s!r}")
        again = must(e.parse, s, what="second parse")
        expect(plain(again) == first, lambda: f"{s!r} gives {plain(again)!r} after edits to another result, before {first!r}")
        verify_all(again, Level(node), f"second parse of {s!r}")
        missing = again["zz"]
        expect(plain(missing) == [] and not list(missing.keys()) and "zz" not in again, lambda: f"a missing name looks up {missing!r} with {list(missing.keys())}")
        if case["action"]:
            in_action(g, s, node, case["edits"], ctx)


def hollow(node):
    if not isinstance(node, gram.Node):
        return False
    return bool(node.name) and not gram.tokens(node) or any(hollow(x) for x in node.kids)


def in_action(g, s, node, edits, ctx):
    edits = [[op, 0, n, v] for op, _, n, v in edits]
    model = []

    def action(tokens):
        top = Level(node)
        edit(tokens, top, edits, ctx, f"tokens in the action, of {s!r}")
        model[:] = [top]

    e = gram.build(g).add_parse_action(action)
    o = call(e.parse, s)
    if o.kind == "crash":
        cause = o.value
        while cause is not None and not isinstance(cause, Violation):
            cause = getattr(cause, "cause", None) or cause.__cause__
        raise cause or Violation(f"edits in an action, of {s!r}: {o!r}")
    expect(o.ok, lambda: f"edits in an action, of {s!r}: {o!r}")
    if model:
        ctx.label("in action")
        verify_all(o.value, model[0], f"result of {s!r} after edits in an action")


SUBS = [Sub("edits", cases(decode, 180), check, 8000, 120000)]
