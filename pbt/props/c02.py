"""C02: many alternatives behave exactly as the same alternatives tried one by one."""
from pbt import gram
from pbt.gen import GrammarGen, Sampler, cases, mutate
from pbt.lib import ParseResults, Violation, call, expect, no_crash, show
from pbt.runner import Sub

ID = "C02"
RULE = (
    "Cases: 2-10 alternatives (literals, keywords, caseless forms, words, character classes, regexes, sequences with "
    "optional/lookahead/lookbehind starts, repetitions, SkipTo, quoted strings, nested alternations, recursive "
    "references, named or tagged by a parse action; ASCII and case-irregular Unicode letters) and 3-6 inputs sampled "
    "from them and mutated; alternatives, and what is around the choice, may be built in whitespace contexts of their own. MatchFirst(alternatives) is compared to trying each alternative alone, in order. "
    "Non-trivial: at least 3 alternatives, and a match by an alternative other than the first, or by an alternative "
    "when a later one would match too."
)
COSTLY = True
ASSUMPTIONS = ["an alternative alone (parsed by itself) defines what it matches"]

POOL = ["a", "b", "ab", "abc", "abd", "A", "AB", "aB", "b c", "a.b", "x", "xy", "+", "++", "(", "[a", "a-", "ba", "-", "\\", "^"]
UNI = ["é", "É", "ß", "ẞ", "SS", "ss", "ı", "I", "i", "İ", "K", "k", "µ", "μ", "ς", "σ", "Σ", "ǅ", "éa", "ſ", "s"]
REGEXES = [
    "a", "ab", "[ab]c", "a|b", "(?i)ab", r"\x61", "a??b", "a*", "[^a]", r"\w", "(a)(b)", "a+b", r"\+", "é", "[é-ü]",
    "(?:a|x)y", "a{2}", "a{1,}", ".", r"b\b", "(?!a).", "(?=a)", r"\d+", "x?a", "a |b", "(?P<q>a)b",
]


class Gen(GrammarGen):
    def node(self, k, depth, free):
        g = GrammarGen.node(self, k, depth, free)
        if g[0] == "many" and g[2:4] == [1, 1]:
            g[3] = 2  # x*1 is x itself, and skips no whitespace then
        return g


WHITES = [".", " ", "", "x\n", "-."]


def alternative(t, gg):
    k = t.weighted([
        (8, "lit"), (3, "kw"), (3, "clit"), (2, "ckw"), (3, "word"), (2, "char"), (3, "regex"), (4, "optseq"), (2, "seq"),
        (1, "aheadseq"), (1, "notseq"), (1, "behind"), (1, "skipto"), (1, "quoted"), (2, "nest"), (1, "many"),
        (1, "opt"), (1, "combine"), (1, "ref"), (2, "grammar"), (1, "uni"),
        (2, "ws"),
    ])
    if k == "uni":
        return [t.pick(["lit", "clit", "kw", "ckw"]), t.pick(UNI)]
    if k in ("lit", "clit"):
        return [k, t.pick(POOL)]
    if k in ("kw", "ckw"):
        return [k, t.pick(["a", "ab", "AB", "abc", "xy", "if"])]
    if k == "word":
        return ["word", t.pick(["a", "ab", "abcx", "+-", "éK"]), t.pick([None, "abc"]), t.pick([1, 2]), t.pick([None, 3])]
    if k == "char":
        return ["char", t.pick(["a", "ab", "xyz+", "-]^\\", "éß"])]
    if k == "regex":
        return ["regex", t.pick(REGEXES)]
    sub = lambda: alternative(t, gg)
    simple = lambda: ["lit", t.pick(POOL)]
    if k == "optseq":
        return ["and", [maybe(t, simple)] + t.some(1, 2, simple), t.n(8)]
    if k == "seq":
        return ["and", [simple()] + t.some(0, 2, simple), t.n(8)]
    if k == "aheadseq":
        return ["and", [["ahead", simple()], simple()], 0]
    if k == "notseq":
        return ["and", [["not", simple(), True], simple()], 0]
    if k == "behind":
        return ["and", [["behind", ["lit", t.pick(["<", "a"])]], simple()], 0]
    if k == "skipto":
        return ["skipto", simple(), t.n(2) == 1]
    if k == "quoted":
        return ["quoted", t.pick(['"', "'", "a", "++"])]
    if k == "nest":
        return [t.pick(["first", "or", "each", "first"]), t.some(2, 4, simple), 0]
    if k == "many":
        return ["many", simple(), t.pick([0, 1, 2]), t.pick([None, 3]), t.n(3)]
    if k == "opt":
        return ["opt", simple(), t.pick([None, "D"])]
    if k == "combine":
        return ["combine", ["and", [simple(), simple()], 0], ""]
    if k == "ref":
        return ["ref", 0]
    if k == "ws":
        body = ["many", simple(), t.pick([1, 0, 2]), t.pick([None, 3]), 0] if t.n(3) else ["and", [simple(), simple()], 0]
        return ["ws", t.pick(WHITES), body]
    gg.left = 8
    return gg.expr(2, True)


def maybe(t, simple):
    """something that can match nothing, in some wrapper"""
    g = t.pick([["opt", simple(), None], ["many", simple(), 0, t.pick([None, 2]), 1], ["first", [simple(), ["opt", simple(), None]], 0]])
    k = t.n(7)
    if k == 1:
        g = ["group", g]
    elif k == 2:
        g = ["suppress", g, t.n(2)]
    elif k == 3:
        g = ["combine", g, ""]
    elif k == 4:
        g = ["and", [g, ["opt", simple(), "D"]], 0]
    elif k == 5:
        g = ["name", g, "opt"]
    return ["group", g] if k == 6 else g


def decode(t):
    gg = Gen(t, rules=1)
    rules = [gg.consuming(alternative(t, gg))]
    if any(x[0] == "ref" for x in gram.walk(rules[0])):
        rules = [["lit", "a"]]
    alts = []
    for i in range(t.pick([3, 4, 5, 2, 6, 8, 10])):
        a = alternative(t, gg)
        k = t.n(6)
        if k == 4:
            a = ["name", a, "n%d" % i]
        elif k == 5:
            a = ["tag", a, i]
        alts.append(a)
    strings = []
    for _ in range(t.between(3, 6)):
        s = Sampler(t, {"rules": rules}).sample(unwrap(t.pick(alts)))
        if t.n(3) == 0:
            s = mutate(t, s, "abxyAB+-. éßK")
        s += t.pick(["", "", "c", " b", "x"])
        if t.n(6) == 5:
            s = t.pick([" ", ".", "x", "\n", "-"]) + s
        if s not in strings:
            strings.append(s[:40])
    return {
        "rules": rules, "alts": alts, "s": strings, "around": t.n(3) == 2, "style": t.pick([0, 1, 2]),
        "outer": t.pick([None, None, "", "", "."]),
    }


def unwrap(a):
    return unwrap(a[1]) if a[0] in ("name", "tag", "cond") else a


def tagger(i):
    return lambda tokens: "tag%d" % i


def keep(tokens):
    return tokens


class Builder(gram.Builder):
    def _build(self, g):
        if g[0] == "tag":
            return self.build(g[1]) / tagger(g[2])
        return gram.Builder._build(self, g)


def named(v):
    return v.as_list() if isinstance(v, ParseResults) else [v]


def view(r, s, white=""):
    return {
        "list": r.as_list(),
        "match": s[: r.end].rstrip(gram.WS + white),
        "names": sorted((k, show(v)) for k in r.keys() for v in [named(r[k])] if any(x not in ("", []) for x in v)),
    }


def check(case, ctx):
    alts = case["alts"]

    # what is built without whitespace does not skip it at the start of a parse, so is not used there
    outer = case["outer"]
    around = outer is not None or case["around"] or any(x[0] in ("quoted", "ws") for a in alts + case["rules"] for x in gram.walk(unwrap(a)))

    def make(g):
        # the action (does nothing) keeps a sequence from being merged into the one around it
        e = Builder(case["rules"]).start(g) / keep
        if outer is not None:
            with gram.Whitespace(outer):
                return gram.Group(gram.Literal("<") + e)
        return gram.Group(gram.Literal("<") + e) if around else gram.Group(e)

    whole = make(["first", alts, case["style"]])
    alone = [make(a) for a in alts]
    for s in case["s"]:
        if around:
            s = "<" + s
        got = no_crash(call(whole.parse, s), f"parse of {s!r}")
        each = [no_crash(call(e.parse, s), f"alternative {i} on {s!r}") for i, e in enumerate(alone)]
        first = next((i for i, o in enumerate(each) if o.ok), None)
        if first is None:
            expect(not got.ok, lambda: f"on {s!r} no alternative matches alone, but the choice gives {show(got.value)}")
            ctx.label("rejected")
            continue
        want = each[first].value
        if not got.ok:
            raise Violation(f"on {s!r} alternative {first} matches alone ({show(want)}), but the choice gives {got!r}")
        a, b = view(got.value, s, outer or ""), view(want, s, outer or "")
        expect(a == b, lambda: f"on {s!r} alternative {first} is the first to match, and gives {b}, but the choice gives {a}")
        ctx.label("matched")
        if len(alts) >= 3 and (first > 0 or sum(o.ok for o in each) > 1):
            ctx.hit("contested")


SUBS = [Sub("first", cases(decode, 120), check, 9600, 500000)]
