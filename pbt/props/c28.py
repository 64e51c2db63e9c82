"""C28: Dict, OpenDict and ungroup expose what was parsed."""
from mo_parsing import And, Dict, Forward, Group, OneOrMore, OpenDict, Optional, ParseResults, Suppress, Word, ZeroOrMore
from mo_parsing import helpers
from mo_parsing.infix import delimited_list

from pbt import gram
from pbt.gen import GrammarGen, cases, inputs
from pbt.lib import Violation, call, expect, must, plain
from pbt.props import c09
from pbt.runner import Sub

ID = "C28"
COSTLY = True
RULE = (
    "table: a table of 0-6 entries with keys from a small pool (so they repeat), each with 0-3 values that are words, groups or nested tables, "
    "written with random spacing and read with Dict, OpenDict or a group of OpenDict over a repetition, delimited list, sequence or single group; the "
    "table is alone, named, repeated, or between other named parts. Items, keys() and the lookup of all keys (present or not, also in nested tables) "
    "are compared to a dictionary model. ungroup: a random grammar X with names inside A + ungroup(Group(X)) + B is compared to A + X + B. "
    "Non-trivial: a key with several entries; a nested table; an ungrouped group with several items or names."
)
ASSUMPTIONS = [
    "keys are words",
    "a key whose entries have no values is listed by keys(), and looks up nothing",
]
KEYS = ["a", "b", "key", "n", "x"]
LETTERS = "abcdefghijklmnopqrstuvwxyz"
DIGITS = "0123456789"


# --------------------------------------------------------------------------- table
def table(t, depth):
    return [entry(t, depth) for _ in range(t.between(0, 6) if depth else t.between(1, 3))]


def entry(t, depth):
    return [t.pick(KEYS), [value(t, depth) for _ in range(t.pick([1, 1, 1, 0, 2, 3]))]]


def value(t, depth):
    k = t.n(6) if depth else 0
    if k == 4:
        return [value(t, 0) for _ in range(t.between(1, 3))]
    if k == 5:
        return {"table": table(t, depth - 1)}
    return str(t.between(0, 12))


def decode_table(t):
    return {
        "kind": t.pick(["Dict", "OpenDict", "group"]),
        "inner": t.pick(["Dict", "group"]),
        "list": t.pick(["many", "delimited", "and", "forward", "optional", "named", "steps"]),
        "mark": t.pick(["=", ":", "->"]),
        "around": t.pick(["", "", "name", "between", "twice", "group", "forward", "nest"]),
        "space": [t.pick(["", " ", "  ", "\n", "\t "]) for _ in range(9)],
        "table": table(t, 2),
        "second": table(t, 1),
        "single": t.chance(1, 6),
    }


def write(tab, delim, mark, sp):
    out = [write_entry(e, delim, mark, sp) for e in tab]
    return (sp() + delim + sp()).join(out) if delim else "".join(o + " " + sp() for o in out)


def write_entry(e, delim, mark, sp):
    key, values = e
    return key + sp() + mark + sp() + "".join(write_value(v, delim, mark, sp) + " " + sp() for v in values)


def write_value(v, delim, mark, sp):
    if isinstance(v, dict):
        return "{" + sp() + write(v["table"], delim, mark, sp) + "}"
    if isinstance(v, list):
        return "[" + sp() + " ".join(v) + sp() + "]"
    return v


def items_of(tab):
    return [[k] + [item_of(v) for v in values] for k, values in tab]


def item_of(v):
    return items_of(v["table"]) if isinstance(v, dict) else v


KINDS = {"Dict": Dict, "OpenDict": OpenDict, "group": lambda e: Group(OpenDict(e))}


def check_table(case, ctx):
    tab, second = case["table"], case["second"]
    if case["single"]:
        tab = tab[:1] or [["a", ["1"]]]
    style = "many" if case["list"] in ("and", "optional") else case["list"]
    delim = ";" if style == "delimited" else ""

    def listed(e):
        if style == "delimited":
            return Optional(delimited_list(e, ";"))
        if style == "steps":
            return Optional(OneOrMore(e))
        return ZeroOrMore(e)

    with_name = style == "named"
    val = Forward()
    key = Word(LETTERS)
    body = ZeroOrMore(val)
    ent = Group((key("k") if with_name else key) + Suppress(case["mark"]) + (body("v") if with_name else body))
    if style == "forward":
        f = Forward()
        f << ent
        ent = f
    val << (
        Word(DIGITS)
        | Suppress("[") + Group(OneOrMore(Word(DIGITS))) + Suppress("]")
        | Suppress("{") + KINDS[case["inner"]](listed(ent)) + Suppress("}")
    )
    n = [0]

    def sp():
        n[0] += 1
        return case["space"][n[0] % len(case["space"])]

    if case["single"]:
        whole = ent
    elif case["list"] == "and":
        whole = And([ent for _ in tab]) if len(tab) > 1 else listed(ent)
    elif case["list"] == "optional":
        whole = ZeroOrMore(ent) + Optional(Word("#"))
    else:
        whole = listed(ent)

    make = KINDS[case["kind"]]
    text = write(tab, delim, case["mark"], sp)
    around = case["around"]
    what = f"{case['kind']} ({case['list']}, {around or 'alone'}) of {text!r}"
    opened = case["kind"] == "OpenDict"
    if around == "twice":
        e = make(whole) + Suppress("/") + make(listed(ent))
        second = second or [["a", []]]
        text = text + sp() + "/" + sp() + write(second, delim, case["mark"], sp)
        want = items_of(tab) + items_of(second) if opened else [items_of(tab), items_of(second)]
        levels = [([], tab + second)] if opened else [([0], tab), ([1], second), ([], [])]
    elif around == "between":
        e = Word(LETTERS)("n") + Suppress("/") + make(whole) + Suppress("/") + Word(LETTERS)("x")
        text = "first" + sp() + "/" + sp() + text + "/" + sp() + "last"
        mid = items_of(tab) if opened else [items_of(tab)]
        want = ["first"] + mid + ["last"]
        pre, post = [["n", ["first"]]], [["x", ["last"]]]
        levels = [([], pre + tab + post)] if opened else [([], pre + post), ([1], tab)]
    elif around == "group":
        e = Group(make(whole)) + Suppress("/")
        text += "/"
        want = [items_of(tab) if opened else [items_of(tab)]]
        levels = [([], []), ([0], tab if opened else []), ([0], tab) if opened else ([0, 0], tab)]
    elif around == "nest":
        e = Suppress("{") + Dict(Group(Word(LETTERS) + make(whole))) + Suppress("}")
        text = "{outer " + text + "}"
        want = [[["outer"] + (items_of(tab) if opened else [items_of(tab)])]]
        levels = [([], []), ([0, 0], tab if opened else []), ([0], [["outer", items_of(tab) if opened else [{"table": tab}]]])]
    elif around == "name":
        e = make(whole)("here") + Suppress("/")
        text += "/"
        want = items_of(tab) if opened else [items_of(tab)]
        levels = [([], []), (["here"], tab)]
        if opened and len(want) < 2:
            levels = []
    else:
        e = make(whole)
        if around == "forward":
            f = Forward()
            f << e
            e = f
        e = e + Suppress("/")
        text += "/"
        want = items_of(tab) if opened else [items_of(tab)]
        levels = [([], tab)] if opened else [([], []), ([0], tab)]

    r = must(e.parse, text, parse_all=True, what=what)
    got = plain(r)
    expect(got == want, lambda: f"{what}: items {got!r}, not {want!r}")
    expect(r.as_list() == want, lambda: f"{what}: as_list() {r.as_list()!r}, not {want!r}")
    expect(len(r) == len(want), lambda: f"{what}: len() {len(r)}, not {len(want)}")
    for path, model in levels:
        at, where = r, what
        for p in path:
            at = at[p]
            where += f"[{p!r}]"
        if path == ["here"] and opened and len(want) == 1:
            continue
        look(at, model, where, ctx, hide="here" if around == "name" and not path else None)


def look(r, tab, where, ctx, hide=None):
    expect(isinstance(r, ParseResults), lambda: f"{where}: is {r!r}")
    model = {}
    for k, values in tab:
        model.setdefault(k, []).append(values)
    keys = [k for k in r.keys() if k != hide]
    expect(keys == list(model), lambda: f"{where}: keys() {keys}, not {list(model)}")
    for k in KEYS + ["first", "outer", "zz"]:
        values = [v for vs in model.get(k, []) for v in vs]
        if not values:
            expect(k not in r, lambda: f"{where}: {k!r} is in the result, but has no value")
            expect(r.get(k, DEFAULT) is DEFAULT, lambda: f"{where}: get({k!r}) is not the default, but it has no value")
            expect(plain(r[k]) == [], lambda: f"{where}: [{k!r}] is {plain(r[k])!r}, but it has no value")
            continue
        expect(k in r or values == [{"table": []}], lambda: f"{where}: {k!r} is not in the result")
        got = r[k]
        want = [item_of(v) for v in values]
        if len(want) == 1:
            expect(plain(got) == want[0], lambda: f"{where}: [{k!r}] is {plain(got)!r}, not {want[0]!r}")
            each = [got]
        else:
            expect(isinstance(got, ParseResults) and plain(got) == want, lambda: f"{where}: [{k!r}] is {plain(got)!r}, not {want!r}")
            each = [got[i] for i in range(len(want))]
        if len(model[k]) > 1:
            ctx.hit("key with several entries")
        for v, x in zip(values, each):
            if isinstance(v, dict):
                ctx.hit("nested table")
                look(x, v["table"], f"{where}[{k!r}]", ctx)


DEFAULT = object()


# --------------------------------------------------------------------------- ungroup
def decode_ungroup(t):
    gg = c09.Gen(t, rules=t.pick([0, 0, 1]), names=True, max_nodes=14)
    g = gg.grammar()
    return {"g": g, "s": inputs(t, g, 2, 3), "before": t.chance(1, 2), "after": t.chance(1, 2), "outer": t.chance(1, 3)}


def check_ungroup(case, ctx):
    g = case["g"]

    def make(opened):
        x = gram.build(g)
        if opened:
            x = helpers.ungroup(Group(x))
        parts = [x]
        if case["before"]:
            parts.insert(0, Word("<", exact=1)("m"))
        if case["after"]:
            parts.append(Word(">", exact=1)("y"))
        e = And(parts) if len(parts) > 1 else parts[0]
        return Group(e) if case["outer"] else e

    names = set(c09.POOL)
    for r in g["rules"] + [g["start"]]:
        names.update(x[2] for x in gram.walk(r) if x[0] == "name")
    top = g["start"][0]
    a, b = make(False), make(True)
    for s in case["s"]:
        s = ("< " if case["before"] else "") + s + (" >" if case["after"] else "")
        x, y = call(a.parse, s), call(b.parse, s)
        expect(x.kind == y.kind, lambda: f"on {s!r}: without group {x!r}, with ungroup {y!r}; {gram.text(g) if hasattr(gram, 'text') else g}")
        if not x.ok:
            continue
        x, y = x.value, y.value
        if top == "name" or not (case["before"] or case["after"] or case["outer"]):
            x, y = inner(x), inner(y)  # the top level adds a group around a name
        expect(plain(x) == plain(y), lambda: f"on {s!r}: items {plain(y)!r}, without group and ungroup {plain(x)!r}")
        if len(plain(x)) > 1:
            ctx.hit("items")
        if top == "name":
            continue
        for n in sorted(names):
            u, v = plain(x[n]), plain(y[n])
            expect(u == v, lambda: f"on {s!r}: [{n!r}] is {v!r}, without group and ungroup {u!r}")
            if u:
                ctx.hit("names")


def inner(r):
    while isinstance(r, ParseResults) and len(r) == 1 and isinstance(r[0], ParseResults):
        r = r[0]
    return r


SUBS = [
    Sub("table", cases(decode_table, 120), check_table, 1500, 20000),
    Sub("ungroup", cases(decode_ungroup, 200), check_ungroup, 800, 12000),
]
