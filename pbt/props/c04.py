"""C04: match-all accepts every order of its elements, within their bounds."""
from mo_parsing import (
    Group, Literal, Many, MatchAll, OneOrMore, Optional, ZeroOrMore,
)
from pbt.gen import cases
from pbt.lib import call, expect, no_crash, plain, show
from pbt.runner import Sub

ID = "C04"
RULE = (
    "Cases: 2-5 elements with distinct start letters (a literal, a sequence, a group, a choice or a grouped inner match-all; "
    "required, optional, optional with default, or repeated with bounds, named or not), listed in a random order, "
    "built by & (left or right) or MatchAll, alone or between literals; and 3-8 arrangements of occurrences (valid "
    "ones shuffled or with runs kept together, ones with an occurrence too many or too few, or broken). Model: take "
    "occurrences greedily until one exceeds its element's maximum; accept when all minimums are met. "
    "Non-trivial: some arrangement has at least 3 occurrences in an order other than the listed one, or an element "
    "is repeated at separate places."
)
ASSUMPTIONS = ["required elements and bodies of repetitions consume input"]

LETTERS = "abcde"
KINDS = ["req", "req", "opt", "many", "optD", "many", "req"]
BODIES = ["lit", "lit", "seq", "group", "each", "first"]
BOUNDS = [(0, None), (1, None), (0, 2), (1, 2), (2, None), (2, 2), (2, 3), (0, 3), (3, 4), (0, 1), (1, 1)]


def decode(t):
    elements = []
    for i in range(t.pick([3, 2, 4, 3, 5])):
        kind = t.pick(KINDS)
        e = [LETTERS[i], kind, t.pick(BODIES)]
        e.append(list(t.pick(BOUNDS)) if kind == "many" else {"req": [1, 1]}.get(kind, [0, 1]))
        e.append(t.n(4) == 3)
        elements.append(e)
    inputs = []
    for _ in range(t.between(3, 8)):
        occ = []
        for i, (_, kind, _, (lo, hi), _) in enumerate(elements):
            n = lo + (t.n(3) if hi is None else t.n(hi - lo + 1))
            d = t.n(12)
            n += 1 if d == 11 else -1 if d == 10 else 0
            occ.extend([i] * max(n, 0))
        if t.n(4):
            occ = t.shuffled(occ)
        else:
            occ = [i for j in t.shuffled(range(len(elements))) for i in occ if i == j]
        variants = [[i, t.n(4)] for i in occ]
        if t.n(6) == 5:
            variants.insert(t.n(len(variants) + 1), t.pick([[-1, 0], [-2, 0]]))
        inputs.append([variants, t.pick([0, 0, 1, 2])])
    return {
        "elements": elements, "order": t.shuffled(range(len(elements))), "style": t.n(3), "place": t.n(3), "inputs": inputs, "strings": t.n(2),
    }


def body(letter, form):
    if form == "lit":
        return Literal(letter)
    if form == "seq":
        return Literal(letter) + Literal("1")
    if form == "group":
        return Group(Literal(letter) + Optional(Literal("1")))
    if form == "first":
        return Literal(letter + "x") | Literal(letter + "y")
    return Group(MatchAll([Literal(letter + "1"), Literal(letter + "2")]))


def occurrence(letter, form, v):
    """the text and the tokens of an occurrence"""
    if form == "lit":
        return letter, [letter]
    if form == "seq":
        return letter + ["1", " 1"][v % 2], [letter, "1"]
    if form == "group":
        return (letter, [[letter]]) if v % 2 else (letter + " 1", [[letter, "1"]])
    if form == "first":
        x = letter + "xy"[v % 2]
        return x, [x]
    x = [letter + "1", letter + "2"]
    if v % 2:
        x.reverse()
    return " ".join(x) if v & 2 else "".join(x), [x]


def element(e):
    letter, kind, form, (lo, hi), named = e
    b = body(letter, form)
    if kind == "opt":
        b = Optional(b)
    elif kind == "optD":
        b = Optional(b, default="D" + letter)
    elif kind == "many":
        if (lo, hi) == (0, None):
            b = ZeroOrMore(b)
        elif (lo, hi) == (1, None):
            b = OneOrMore(b)
        elif hi is None:
            b = Many(b, min_match=lo)
        else:
            b = Many(b, min_match=lo, max_match=hi)
    return b("n" + letter) if named else b


def check(case, ctx):
    elements, order = case["elements"], case["order"]
    kids = [element(elements[i]) for i in order]
    if case.get("strings"):
        # strings stand for literals
        raw = [e[0] if e[1:3] == ["req", "lit"] and not e[4] else k for e, k in zip((elements[i] for i in order), kids)]
        if case["style"] == 0 or any(not isinstance(x, str) for x in (raw[-2:] if case["style"] == 2 else raw[:2])):
            kids = raw
    if case["style"] == 0:
        e = MatchAll(kids)
    elif case["style"] == 1:
        e = kids[0]
        for k in kids[1:]:
            e = e & k
    else:
        e = kids[-1]
        for k in reversed(kids[:-1]):
            e = k & e
    if case["place"] == 1:
        whole = Literal("<") + Group(e) + Literal(">")
    elif case["place"] == 2:
        whole = Group(e) + Optional(Literal(">"))
    else:
        whole = Group(e)

    for occ, spacing in case["inputs"]:
        texts, want, count, taken = [], [], [0] * len(elements), 0
        stopped = False
        places = [0] * len(elements)
        last = None
        for i, v in occ:
            if i < 0:
                texts.append("z" if i == -1 else "A")
                stopped = True
                continue
            letter, kind, form, (lo, hi), _ = elements[i]
            x, tokens = occurrence(letter, form, v)
            texts.append(x)
            if not stopped and (hi is None or count[i] < hi):
                count[i] += 1
                taken += 1
                want.extend(tokens)
                if last != i:
                    places[i] += 1
                last = i
            else:
                stopped = True
        ok = all(count[i] >= elements[i][3][0] for i in range(len(elements)))
        for i in order:
            if elements[i][1] == "optD" and not count[i]:
                want.append("D" + elements[i][0])
        s = ["", " ", "\n "][spacing].join(texts)
        if case["place"] == 1:
            s = "<" + s + ">"
        complete = ok and not stopped
        got = no_crash(call(whole.parse, s, parse_all=True), f"parse of {s!r}")
        if complete != got.ok:
            expect(
                False, f"on {s!r} counts {count} of {[x[:4] for x in elements]} should be "
                f"{'accepted' if complete else 'rejected'}, but parse gives {got!r}"
            )
        if case["place"] != 1:
            got = no_crash(call(whole.parse, s), f"parse of {s!r}")
            expect(got.ok == ok, lambda: f"prefix of {s!r} should be {'accepted' if ok else 'rejected'}: {got!r}")
        if not got.ok:
            ctx.label("rejected")
            continue
        inner = plain(got.value)
        want = {0: want, 1: ["<", want, ">"], 2: [want]}[case["place"]]
        expect(inner == want, lambda: f"on {s!r} tokens should be {want}, not {show(got.value)}")
        rest = s[got.value.end:].strip()
        ctx.label("accepted" if not rest else "prefix")
        if max(places) > 1:
            ctx.hit("spread")
        first = [i for k, (i, _) in enumerate(occ[:taken]) if i not in [j for j, _ in occ[:k]]]
        if len(first) > 2 and first != [i for i in order if i in first]:
            ctx.hit("reordered")


SUBS = [Sub("each", cases(decode, 90), check, 12000, 400000)]
