"""C07: scanning finds exactly the leftmost matches, in order."""
from mo_parsing.results import ParseResults

from pbt import gram
from pbt.gen import GrammarGen, Sampler, cases, mutate
from pbt.lib import Violation, call, expect, no_crash, plain, show
from pbt.runner import Sub

ID = "C07"
RULE = (
    "Cases: a random grammar (as C01; it may match nothing), optionally with an action that changes the tokens, and 2-4 "
    "strings of samples, noise and whitespace; scan_string with every combination of max_matches and overlap, "
    "search_string, split (limits, separators) and transform_string are compared to a reference scan that tries the "
    "reference interpreter at each position; two scans are also advanced in turns. Non-trivial: at least 2 matches and "
    "some text that is not matched."
)
COSTLY = True
ASSUMPTIONS = ["reference interpreter pbt/gram.py", "ends are compared modulo trailing whitespace"]

ACTIONS = {
    "wrap": lambda tokens: "<" + tokens.as_string("") + ">",
    "int": lambda tokens: len(tokens.as_string("")),
    "list": lambda tokens: [tokens.as_string(""), "+"],
    "none": lambda tokens: None,
    "empty": lambda tokens: [],
}


def acted(k, node):
    """the tokens of a reference node, after the action"""
    t = gram.tokens(node)
    text = "".join(gram.flat_strings(node))
    if k == "wrap":
        return ["<" + text + ">"]
    if k == "int":
        return [len(text)]
    if k == "list":
        return [text, "+"]
    if k == "empty":
        return []
    return t


def decode(t):
    gg = GrammarGen(t, rules=t.pick([0, 0, 0, 1]), depth=t.pick([2, 3, 3]), max_nodes=14)
    g = gg.grammar()
    if t.n(4) == 3:
        g["start"] = gg.terminal()
    strings = []
    for _ in range(t.between(2, 4)):
        s = ""
        for _ in range(t.between(1, 5)):
            x = Sampler(t, g).sample(g["start"])[:16]
            if t.n(6) == 5:
                x = mutate(t, x)
            s += x + t.pick(["", " ", "x", " x ", "\n", "  ", "xx", ", "])
        s = t.pick(["", " ", "x", ""]) + s[:48]
        if s not in strings:
            strings.append(s)
    act = t.pick([None, None, None] + list(ACTIONS))
    if act:
        g["start"] = ["and", [g["start"], ["opt", ["lit", "c"], None]], 0]  # not itself a group
    return {"g": g, "s": strings, "act": act, "max": t.n(4), "early": t.n(2) == 1}


def reference(g, s, overlap):
    ref = gram.Ref(g, s)
    out = []
    end = 0
    while end <= len(s):
        start = ref.skip(end)
        try:
            node = ref.parse(g["start"], start)
        except gram.Fail:
            end = start + 1
            continue
        out.append((start, node))
        end = start + 1 if overlap or node.end <= start else node.end
    return out


def flat(x):
    if isinstance(x, list):
        return "".join(flat(y) for y in x)
    return str(x)


def listed(t):
    expect(isinstance(t, ParseResults), lambda: f"a match is {type(t).__name__}, not ParseResults")
    return t.as_list()


def check(case, ctx):
    g, act = case["g"], case["act"]
    e = gram.build(g)
    if act:
        e = e / ACTIONS[act]
    p = e.finalize() if case["early"] else e

    def tokens(node):
        return acted(act, node)

    scans = {}
    for s in case["s"]:
        try:
            want = {o: [(a, n.end, tokens(n)) for a, n in reference(g, s, o)] for o in (False, True)}
        except gram.TooMuch:
            ctx.label("not judged")
            continue
        limit = case["max"]
        for overlap in (False, True):
            for m in (None, limit):
                kw = {} if m is None else {"max_matches": m}
                if overlap:
                    kw["overlap"] = True
                got = list(no_crash(call(lambda: list(p.scan_string(s, **kw))), f"scan of {s!r}").value)
                w = want[overlap] if m is None else want[overlap][:m]
                compare(s, got, w, kw)
        scans[s] = got = list(p.scan_string(s))
        spans = [(b, c) for _, b, c in got]
        lists = [listed(t) for t, _, _ in got]
        for m in (None, limit):
            kw = {} if m is None else {"max_matches": m}
            r = no_crash(call(p.search_string, s, **kw), f"search of {s!r}").value
            w = [x for _, _, x in want[False]][:m]
            found = plain(r)
            expect(found == w, lambda: f"search_string({s!r}, {kw}) gives {found}, the scan {w}")
            kw = {} if m is None else {"maxsplit": m}
            for sep in (False, True):
                parts = no_crash(call(lambda: list(p.split(s, include_separators=sep, **kw))), f"split of {s!r}").value
                last, w = 0, []
                for (b, c), x in list(zip(spans, lists))[: None if m is None else m]:
                    w.append(s[last:b])
                    if sep:
                        w.append(x)
                    last = c
                w.append(s[last:])
                parts = [x if isinstance(x, str) else listed(x) for x in parts]
                expect(parts == w, lambda: f"split({s!r}, {kw}, include_separators={sep}) gives {parts}, not {w}")
        r = no_crash(call(p.transform_string, s), f"transform of {s!r}").value
        last, w = 0, ""
        for (b, c), (_, _, x) in zip(spans, want[False]):
            w += s[last:b] + flat(x)
            last = c
        w += s[last:]
        expect(r == w, lambda: f"transform_string({s!r}) gives {r!r}, not {w!r}")
        if len(spans) > 1 and sum(c - b for b, c in spans) < len(s):
            ctx.hit("several matches")
        else:
            ctx.label("no match" if not spans else "few matches")
    if len(scans) > 1:
        a, b = list(scans)[:2]
        one, two, first, second = p.scan_string(a), p.scan_string(b), [], []
        while one or two:
            for which, acc in (("one", first), ("two", second)):
                it = one if which == "one" else two
                if it is None:
                    continue
                try:
                    acc.append(next(it))
                except StopIteration:
                    if which == "one":
                        one = None
                    else:
                        two = None
        for s, got in ((a, first), (b, second)):
            x = [(listed(t), u, v) for t, u, v in got]
            y = [(listed(t), u, v) for t, u, v in scans[s]]
            expect(x == y, lambda: f"scan of {s!r} in turns with another gives {x}, alone {y}")


def compare(s, got, want, kw):
    shown = [(b, c, listed(t)) for t, b, c in got]
    expect(
        len(got) == len(want), lambda: f"scan_string({s!r}, {kw}) gives {shown}, not {want}"
    )
    for (t, b, c), (start, end, tokens) in zip(got, want):
        expect(
            b == start and 0 <= b <= c <= len(s) and s[b:c].rstrip(gram.WS) == s[start:end].rstrip(gram.WS) and listed(t) == tokens,
            lambda: f"scan_string({s!r}, {kw}) gives {shown}, not {want}",
        )


SUBS = [Sub("scan", cases(decode, 110), check, 5000, 200000)]
