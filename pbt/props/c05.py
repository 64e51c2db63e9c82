"""C05: whitespace rules belong to the context where a grammar was built."""
from mo_parsing import CaselessLiteral, Group, Keyword, Literal, Optional, whitespaces
from mo_parsing.whitespaces import Whitespace

from pbt import gram
from pbt.gen import GrammarGen, cases
from pbt.lib import Violation, call, expect, must, no_crash, show
from pbt.runner import Sub
from pbt.scopes import BuilderMixin, GenMixin, KINDS, ScopedMixin, WHITES, context, ignores, samples

ID = "C05"
RULE = (
    "grammar: random grammars (as C01, without lookarounds) in which any sub-expression may be built inside its own "
    "Whitespace context (14 sets of whitespace characters, up to 2 of 6 ignored expressions), parsed while another context "
    "is current, on inputs sampled with the whitespace and ignored text of all the contexts; against the reference interpreter with "
    "lexically scoped skipping. contexts: random trees of entered contexts (with statement, use/release, left by an exception, "
    "entered twice) with their own whitespace, literal class and keyword characters; probes are built at every point and "
    "parsed there and after everything was left. Non-trivial: at least two contexts matter (an accepted input with skipped text in "
    "two of them, or two different contexts probed)."
)
COSTLY = True
ASSUMPTIONS = [
    "reference interpreter pbt/gram.py, extended by lexical contexts",
    "ignored expressions are single tokens that match at least one character",
    "text that only the whitespace of a repetition, not of what is around it, skips before the first part is not judged",
    "where a zero-width part follows skipped text, whether that text belongs to the sequence is not judged",
]


class Scoped(ScopedMixin, gram.Ref):
    pass


class Builder(BuilderMixin, gram.Builder):
    pass


class Gen(GenMixin, GrammarGen):
    pass


def decode(t):
    gg = Gen(t, KINDS, rules=t.pick([0, 0, 1]))
    rules = [gg.rule() for _ in range(gg.nrules)]
    start = ["and", [["lit", "<"], ["group", gg.expr(4, True)], ["opt", ["lit", ">"], None]], 0]
    outer = [t.pick(WHITES), ignores(t)]
    strings = samples(t, rules, start, outer, 3, 6)
    return {"g": {"rules": rules, "start": ["group", start]}, "outer": outer, "s": strings, "at": t.pick([None] + WHITES[:6])}


def check(case, ctx):
    g = case["g"]
    white, ign = case["outer"]
    before = whitespaces.CURRENT
    with context(white, ign):
        e = Builder(g["rules"]).start(g["start"])
    expect(whitespaces.CURRENT is before, "leaving the context did not restore the one before it")
    for s in case["s"]:
        ref = Scoped(g, s, white, ign)
        try:
            node = ref.run()
        except gram.TooMuch:
            ctx.label("not judged")
            continue
        if case["at"] is None:
            o = call(e.parse, s)
        else:
            with Whitespace(case["at"]):
                o = call(e.parse, s)
        no_crash(o, f"parse of {s!r}")
        if node is None:
            expect(not o.ok, lambda: f"{s!r} is not in the language, but parse gave {show(o.value)}")
            ctx.label("rejected")
            continue
        if not o.ok:
            raise Violation(f"{s!r} should parse to {gram.tokens(node)!r}, but {o!r}")
        want = gram.tokens(node)[0] if g["start"][0] == "group" else gram.tokens(node)
        got = o.value.as_list()
        expect(got == [want] or got == want, lambda: f"{s!r} should give {want!r}, got {got!r}")
        ctx.label("accepted")
        if len(ref.used) > 1:
            ctx.hit("skipped in two contexts")


# --------------------------------------------------------------------------- entering and leaving
LITS = {
    "plain": (None, lambda s: [s]),
    "caseless": (CaselessLiteral, lambda s: [s]),
    "suppressed": (lambda s: Literal(s).suppress(), lambda s: []),
    "grouped": (lambda s: Group(Literal(s)), lambda s: [[s]]),
    "keyword": (Keyword, lambda s: [s]),
}
KEYS = [None, "abc", "-", "b_é", ".", "^-]"]
SEPARATORS = ["", " ", ".", "\n", "-", "b", "é", " .", "\t", "^"]


def tree(t, depth):
    return {
        "white": t.pick(WHITES), "lit": t.pick(list(LITS)), "kw": t.n(len(KEYS)), "how": t.pick(["with", "use", "raise", "twice", "again"]),
        "set": t.pick([None, None, "white", "lit"]),
        "kids": [tree(t, depth - 1) for _ in range(t.pick([0, 1, 2]) if depth else 0)],
    }


def decode_tree(t):
    return {"tree": [tree(t, 3) for _ in range(t.between(1, 2))], "seps": t.some(2, 4, lambda: t.pick(SEPARATORS))}


class Probe:
    """An expression built now, and what it should match"""

    def __init__(self, state, seps):
        self.state = state
        self.seps = seps
        lit = "x"
        self.seq = Literal("<") + lit + Optional("y") + Keyword("ka")
        self.many = Literal("<") + Group(Literal("q") * (1, None))

    def check(self, when):
        white, lit, keys = self.state
        keys = gram.IDENT if keys is None else keys
        for sep in self.seps:
            skipped = all(c in white for c in sep)
            for x in ("x", "X"):
                for tail in ("", "b", "-", "."):
                    s = "<" + sep + x + sep + "ka" + tail
                    ok = skipped and (x == "x" or lit == "caseless") and not (tail and tail in keys)
                    if lit == "keyword":
                        after = (sep + "ka")[0]
                        ok = ok and after not in keys
                    o = no_crash(call(self.seq.parse, s), f"parse of {s!r}")
                    if ok != o.ok:
                        raise Violation(
                            f"{when}: context {self.state} should {'accept' if ok else 'reject'} {s!r}, got {o!r}"
                        )
                    if ok:
                        want = ["<"] + LITS[lit][1]("x") + ["ka"]
                        got = o.value.as_list()
                        expect(got == want, lambda: f"{when}: context {self.state} on {s!r} should give {want}, not {got}")
            s = "<" + sep + "q" + sep + "q"
            o = no_crash(call(self.many.parse, s), f"parse of {s!r}")
            want = ["<", ["q", "q"]] if skipped else None
            if sep and not skipped:
                expect(not o.ok, lambda: f"{when}: context {self.state} should reject {s!r}, got {show(o.value)}")
            else:
                expect(o.ok and o.value.as_list() == want, lambda: f"{when}: context {self.state} on {s!r}: {o!r}")


class Leave(Exception):
    pass


def check_tree(case, ctx):
    probes = []
    states = set()
    base = (gram.WS, "plain", None)

    def probe(state):
        p = Probe(state, case["seps"])
        p.check("where it was built")
        probes.append(p)
        states.add(state)

    def inside(node, w):
        state = (node["white"], node["lit"], KEYS[node["kw"]])
        if LITS[node["lit"]][0]:
            w.set_literal(LITS[node["lit"]][0])
        if state[2] is not None:
            w.set_keyword_chars(state[2])
        probe(state)
        for kid in node["kids"]:
            visit(kid)
            probe(state)
        if node["set"] == "white":
            # settings made later count for what is built later, and is not used before
            state = ("." + state[0], state[1], state[2])
            probes.clear()
            w.set_whitespace(state[0])
            probe(state)
        elif node["set"] == "lit":
            state = (state[0], "grouped", state[2])
            w.set_literal(LITS["grouped"][0])
            probe(state)
        if node["how"] == "again":
            # a context entered from itself has the settings made so far
            with w:
                probe(state)
            probe(state)

    def visit(node):
        before = whitespaces.CURRENT
        how = node["how"]
        w = Whitespace(node["white"])
        if how == "use":
            c = w.use()
            inside(node, c)
            c.release()
        elif how == "raise":
            try:
                with w as c:
                    inside(node, c)
                    raise Leave()
            except Leave:
                pass
        else:
            with w as c:
                inside(node, c)
            if how == "twice":
                expect(whitespaces.CURRENT is before, "leaving a context did not restore the one before it")
                with w:
                    probe((node["white"], "plain", None))
        expect(whitespaces.CURRENT is before, "leaving a context did not restore the one before it")

    for node in case["tree"]:
        visit(node)
        probe(base)
    for p in probes:
        p.check("after leaving")
    if len(states) > 2:
        ctx.hit("several contexts")


SUBS = [
    Sub("grammar", cases(decode, 140), check, 12000, 500000),
    Sub("contexts", cases(decode_tree, 50), check_tree, 500, 20000),
]
