"""C03: longest choice picks the longest match, the first on ties."""
from pbt import gram
from pbt.gen import Sampler, cases, mutate
from pbt.lib import Violation, call, expect, no_crash
from pbt.props import c02
from pbt.props.c02 import Gen, alternative, keep, unwrap, view
from pbt.runner import Sub

ID = "C03"
RULE = (
    "Cases: 1-8 alternatives (as in C02, some with conditions on the matched text) and 3-6 inputs sampled from them, "
    "concatenated and mutated; the choice stands alone, after a literal, between literals or in another choice, also in other whitespace contexts. The "
    "result must be that of the alternative which alone matches furthest, the first of those that match equally far. "
    "Non-trivial: at least 2 alternatives match, or one matches that another condition-bearing one would have beaten."
)
COSTLY = True
ASSUMPTIONS = ["an alternative alone (parsed by itself) defines what it matches", "ties up to whitespace are not judged"]

CONDITIONS = [
    lambda tokens: sum(map(len, flat(tokens))) % 2 == 0,
    lambda tokens: "b" not in "".join(flat(tokens)),
    lambda tokens, loc, string: string[loc: loc + 1] == "a",
]


def flat(tokens):
    return [str(x) for x in tokens.as_string("\x00").split("\x00")]


class Builder(c02.Builder):
    def _build(self, g):
        if g[0] == "cond":
            return self.build(g[1]).add_condition(CONDITIONS[g[2]])
        return c02.Builder._build(self, g)


def decode(t):
    gg = Gen(t, rules=1)
    rules = [gg.consuming(alternative(t, gg))]
    if any(x[0] == "ref" for x in gram.walk(rules[0])):
        rules = [["lit", "a"]]
    alts = []
    for i in range(t.pick([2, 3, 4, 5, 1, 6, 8])):
        k = t.n(8)
        if k >= 6 and alts:
            # more of an earlier alternative: longer when it matches
            a = ["and", [unwrap(t.pick(alts)), ["lit", t.pick(c02.POOL)]], t.n(8)]
        else:
            a = alternative(t, gg)
        if k == 4:
            a = ["name", a, "n%d" % i]
        elif k in (3, 5):
            a = ["cond", a, t.n(len(CONDITIONS))]
        elif k == 2:
            a = ["tag", a, i]
        alts.append(a)
    strings = []
    for _ in range(t.between(3, 6)):
        pick = lambda: Sampler(t, {"rules": rules}).sample(unwrap(t.pick(alts)))
        s = pick() + (t.pick(["", " "]) + pick() if t.n(3) == 0 else "")
        if t.n(3) == 0:
            s = mutate(t, s, "abxyAB+-. éßK")
        s += t.pick(["", "", "c", " b", "x"])
        if t.n(6) == 5:
            s = t.pick([" ", ".", "x", "\n", "-"]) + s
        if s not in strings:
            strings.append(s[:40])
    return {
        "rules": rules, "alts": alts, "s": strings, "place": t.pick([1, 0, 2, 3]), "style": t.pick([0, 1, 2]),
        "outer": t.pick([None, None, "", "."]),
    }


def check(case, ctx):
    alts = case["alts"]
    place = case["place"]
    if place in (0, 3) and any(x[0] in ("quoted", "ws") for a in alts + case["rules"] for x in gram.walk(unwrap(a))):
        place = 1  # what is built without whitespace does not skip it at the start of a parse

    def make(g):
        e = Builder(case["rules"]).start(g) / keep
        if case["outer"] is not None and place in (1, 2):
            with gram.Whitespace(case["outer"]):
                return gram.Group(gram.Literal("<") + gram.Group(e))
        if place == 1:
            return gram.Group(gram.Literal("<") + gram.Group(e))
        if place == 2:
            return gram.Group(gram.Literal("<") + gram.Group(e) + gram.Optional(gram.Literal(">")))
        if place == 3:
            return gram.Group(gram.Group(e) | gram.Keyword("otherwise"))
        return gram.Group(gram.Group(e))

    whole = make(["or", alts, case["style"]])
    alone = [make(a) for a in alts]
    for s in case["s"]:
        if place in (1, 2):
            s = "<" + s
        got = no_crash(call(whole.parse, s), f"parse of {s!r}")
        each = [no_crash(call(e.parse, s), f"alternative {i} on {s!r}") for i, e in enumerate(alone)]
        ok = [i for i, o in enumerate(each) if o.ok]
        if not ok:
            expect(not got.ok, lambda: f"on {s!r} no alternative matches alone, but the choice gives {got!r}")
            ctx.label("rejected")
            continue
        ends = {i: part(each[i].value).end for i in ok}
        white = gram.WS + (case["outer"] or "")
        far = max(len(s[:e].rstrip(white)) for e in ends.values())
        top = [i for i in ok if len(s[: ends[i]].rstrip(white)) == far]
        if len(set(ends[i] for i in top)) > 1:
            ctx.label("not judged")
            continue
        best = top[0]
        want = each[best].value
        if not got.ok:
            raise Violation(f"on {s!r} alternative {best} matches alone, but the choice gives {got!r}")
        a, b = view(got.value, s, case["outer"] or ""), view(want, s, case["outer"] or "")
        expect(
            a == b,
            lambda: f"on {s!r} alternatives {ok} match alone up to {ends}, {best} is the longest and gives {b}, but the choice gives {a}",
        )
        ctx.label("matched")
        if len(ok) > 1:
            ctx.hit("tie" if len(top) > 1 else "contested")
        elif len(alts) > 1 and any(a[0] == "cond" for a in alts):
            ctx.hit("conditional")


def part(result):
    """The inner group: what the choice itself matched."""
    return next(x for x in result if isinstance(x, gram_results))


from pbt.lib import ParseResults as gram_results  # noqa: E402

SUBS = [Sub("or", cases(decode, 130), check, 8000, 400000)]
