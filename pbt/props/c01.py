"""C01: composed grammars mean what their parts mean (against a reference interpreter)."""
from pbt import gram
from pbt.gen import GrammarGen, cases, inputs
from pbt.lib import Violation, call, no_crash, plain, show
from pbt.runner import Sub

ID = "C01"
RULE = (
    "Cases: a random grammar (depth<=4, <=28 nodes, up to 2 recursive rules) over And/MatchFirst/Or/Many/Optional/"
    "NotAny/LookAhead/Group/Suppress/Combine and 10 kinds of terminals, built with randomly chosen API spellings, and "
    "2-4 inputs sampled from the grammar, mutated, and spaced. Non-trivial: the grammar has at least 4 nodes and an "
    "input is accepted with two or more characters consumed, or rejected after at least one character was consumed."
)
COSTLY = True
ASSUMPTIONS = [
    "reference interpreter pbt/gram.py",
    "repetition bodies consume at least one character; references are not left recursive",
]


def decode(t):
    gg = GrammarGen(t, rules=t.pick([0, 0, 1, 2]), names=t.n(2) == 1, never=t.n(4) == 3)
    g = gg.grammar()
    return {"g": g, "s": inputs(t, g), "form": t.n(5)}


def forms(e, form):
    if form == 1:
        return e.finalize()
    if form == 2:
        return e.streamline()
    if form == 3:
        return e.copy()
    if form == 4:
        return e.streamline().streamline().finalize()
    return e


def compare(grammar, parser, s, ctx, white=gram.WS, act=None, judge_end=True):
    ref = gram.Ref(grammar, s, white=white, act=act)
    try:
        node = ref.run()
    except gram.TooMuch:
        ctx.label("not judged")
        return None
    o = no_crash(call(parser.parse, s), f"parse of {s!r}")
    if node is None:
        if o.ok:
            raise Violation(f"{s!r} is not in the language, but parse gave {show(o.value)}")
        ctx.label("rejected")
        return ref, None, o
    if not o.ok:
        raise Violation(f"{s!r} should parse to {gram.tokens(node)!r}, but {o!r}")
    expected = gram.tokens(node)
    got = o.value.as_list()
    top = o.value
    if got != expected:
        raise Violation(f"{s!r} should give {expected!r}, got {got!r}")
    if judge_end:
        end = s[: node.end].rstrip(white)
        if s[: top.end].rstrip(white) != end:
            raise Violation(f"{s!r} should match up to {node.end} ({end!r}), but matched up to {top.end}")
    ctx.label("accepted")
    return ref, node, o


def check(case, ctx):
    g = case["g"]
    parser = forms(gram.build(g), case["form"])
    big = sum(gram.size(r) for r in g["rules"]) + gram.size(g["start"]) >= 4
    for s in case["s"]:
        r = compare(g, parser, s, ctx)
        if r and big:
            ref, node, _ = r
            if node is not None and node.end - node.start >= 2:
                ctx.hit("nontrivial accept")
            elif node is None and ref.far > 0:
                ctx.hit("nontrivial reject")


SUBS = [Sub("grammar", cases(decode, 160), check, 24000, 1200000)]
