"""C25: every parse ends, and left recursion is refused."""
from mo_parsing import RecursiveGrammarException

from pbt import gram
from pbt.gen import ALPHABET, GrammarGen, cases, inputs
from pbt.lib import Violation, call, excerpt, expect
from pbt.runner import Sub

ID = "C25"
RULE = (
    "Cases: 1-3 rules (Forwards, defined in a random order, some before the rules they use) over sequence, choice, option, repetition (also of "
    "parts that match nothing), each, lookaround, skipping and results; references stand anywhere. A search over the parts that "
    "can be reached without consuming decides which rules are left recursive. history: programs that define, use and define again 2-3 rules; each use of rules that are all defined, and each "
    "definition, is judged by the rules as they are then. Non-trivial: a cycle of rules goes through "
    "parts that can match nothing, or an accepted grammar repeats or skips to such a part, or a rule is refused or defined again after a use."
)
ASSUMPTIONS = ["steps are counted as executed loops and calls of library code; a case is judged when the reference interpreter needs few steps",
    "rules that are only another name of a rule are not defined again (that defines the other rule), and definitions are not replaced by such "
    "that change whether a rule can be empty"]


# --------------------------------------------------------------------------- the oracle
class Reach:
    """What can be tried at the same position."""

    def __init__(self, rules):
        self.rules = rules
        self.null = [False] * len(rules)
        while True:
            now = [self.nullable(r) for r in rules]
            if now == self.null:
                break
            self.null = now

    def nullable(self, g):
        k = g[0]
        if k == "ref":
            return self.null[g[1]]
        if k in ("and", "each"):
            return all(self.nullable(x) for x in g[1])
        if k in ("first", "or"):
            return any(self.nullable(x) for x in g[1])
        if k == "many":
            return g[2] == 0 or self.nullable(g[1])
        if k in ("opt", "not", "ahead", "empty"):
            return True
        if k == "skipto":
            return True if not g[2] else self.nullable(g[1])
        if k in ("group", "suppress", "combine", "name"):
            return self.nullable(g[1])
        if k == "regex":
            return g[1] in NULL_REGEX
        return False

    def heads(self, g, out):
        """indexes of the rules that g tries without consuming"""
        k = g[0]
        if k == "ref":
            out.add(g[1])
        elif k == "and":
            for x in g[1]:
                self.heads(x, out)
                if not self.nullable(x):
                    return out
        elif k in ("each", "first", "or"):
            for x in g[1]:
                self.heads(x, out)
        elif k in ("many", "opt", "not", "ahead", "skipto", "group", "suppress", "combine", "name"):
            self.heads(g[1], out)
        return out

    def left_recursive(self):
        """indexes of the rules that reach themselves"""
        edges = [self.heads(r, set()) for r in self.rules]
        out = set()
        for i in range(len(edges)):
            seen, todo = set(), list(edges[i])
            while todo:
                j = todo.pop()
                if j not in seen:
                    seen.add(j)
                    todo.extend(edges[j])
            if i in seen:
                out.add(i)
        return out


def used(rules, g):
    """rules that occur anywhere below g"""
    seen, todo = set(), [g]
    while todo:
        x = todo.pop()
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "ref" and isinstance(x[1], int):
                if x[1] not in seen:
                    seen.add(x[1])
                    todo.append(rules[x[1]])
            else:
                todo.extend(x)
    return seen


# --------------------------------------------------------------------------- generator
NULL_REGEX = {"a*", "b?", "(ab)?", "(?=a)"}
KINDS = [(6, "and"), (5, "first"), (3, "many"), (4, "opt"), (2, "or"), (1, "not"), (1, "ahead"), (2, "group"), (1, "suppress"), (1, "combine"), (1, "each"), (1, "skipto")]
TERMINALS = [(8, "lit"), (3, "word"), (2, "char"), (1, "kw"), (1, "notin"), (1, "any"), (2, "empty"), (4, "regex")]


class Gen(GrammarGen):
    def rule(self):
        return self.expr(self.depth - 1, True)

    def consuming(self, g):
        return g

    def terminal(self):
        if self.left > 0 and self.t.n(8) == 7:
            self.left -= 1
            return ["regex", self.t.pick(sorted(NULL_REGEX))]
        return GrammarGen.terminal(self)

    def expr(self, depth, free):
        if self.nrules and self.t.n(7) == 6:
            self.left -= 1
            return ["ref", self.t.n(self.nrules)]
        return GrammarGen.expr(self, depth, True)

    def node(self, k, depth, free):
        t = self.t
        if k == "skipto":
            return ["skipto", self.expr(depth - 1, True), t.n(2) == 1]
        if k == "many":
            lo, hi = t.pick([(0, None), (1, None), (2, None), (0, 2), (1, 3), (0, 1)])
            return ["many", self.expr(depth - 1, True), lo, hi, t.n(3)]
        return GrammarGen.node(self, k, depth, True)


def decode(t):
    gg = Gen(t, kinds=KINDS, terminals=TERMINALS, rules=t.between(1, 3), names=t.n(4) == 3, max_nodes=14, depth=3)
    g = gg.grammar()
    if t.n(3) < 2:
        # make it consume, just enough
        while True:
            bad = sorted(Reach(g["rules"]).left_recursive())
            if not bad:
                break
            i = t.pick(bad)
            g["rules"][i] = ["and", [["lit", t.pick(["a", "b"])], g["rules"][i]], t.n(8)]
    s = [x[:8] for x in inputs(t, g, 1, 2)] + [t.chars(ALPHABET + " ", 0, 6)]
    order = t.shuffled(list(range(len(g["rules"]))))
    return {"g": g, "s": s, "order": order}


# --------------------------------------------------------------------------- check
class Refused(Exception):
    pass


def recursive(e):
    """is this a RecursiveGrammarException (also as the cause of another exception)?"""
    seen = 0
    while e is not None and seen < 20:
        if isinstance(e, RecursiveGrammarException):
            return True
        e = getattr(e, "cause", None) or e.__cause__
        seen += 1
    return False


def attempt(fn):
    o = call(fn)
    if o.kind == "crash" and recursive(o.value):
        raise Refused()
    return o


class Ref(gram.Ref):
    BUDGET = 400

    def p_or(self, g, i):
        """the longest is parsed once more"""
        r = gram.Ref.p_or(self, g, i)
        self.parse(r.kids[0].spec, i)
        return r

    def p_skipto(self, g, i):
        r = gram.Ref.p_skipto(self, g, i)
        if g[2]:
            self.parse(g[1], r.kids[-1].start)
        return r

    def p_each(self, g, i):
        """roughly: what it costs"""
        left, end = list(g[1]), i
        while left:
            for x in left:
                try:
                    r = self.parse(x, self.skip(end))
                except gram.Fail:
                    continue
                end = r.end
                left.remove(x)
                break
            else:
                self.fail(i)
        return gram.Node(g, i, end, [])


def easy(g, s):
    """a naive parser needs few steps for this string (not exponentially many), from anywhere"""
    for i in range(len(s) + 1):
        try:
            Ref(g, s[i:]).run()
        except gram.TooMuch:
            return False
    return True


def build(case):
    g = case["g"]
    b = gram.Builder(g["rules"])
    b.done = True
    for i in case["order"]:
        b.forwards[i] << b.build(g["rules"][i])
    return b, b.build(g["start"])


def check(case, ctx):
    g = case["g"]
    rules, start = g["rules"], g["start"]
    reach = Reach(rules)
    bad = reach.left_recursive()
    mine = used(rules, start)
    try:
        o = attempt(lambda: build(case))
        if not o.ok:
            raise Violation(f"building the grammar gives {o!r}")
        b, e = o.value
        if bad & mine:
            for s in case["s"]:
                o = attempt(lambda: e.parse(s))
                if o.kind == "crash":
                    raise Violation(f"rules {sorted(bad)} are left recursive, but they are not refused: {s!r} gives {o!r}")
            ctx.label("left recursive rule not reached")
            return
        results = []
        for s in case["s"]:
            if not bad and not easy(g, s):
                ctx.label("not judged")
                continue
            results.append((s, attempt(lambda: e.parse(s))))
    except Refused:
        if not bad:
            raise Violation("the grammar is refused as left recursive, but no rule reaches itself without consuming")
        ctx.hit("refused")
        return
    if bad:
        ctx.label("left recursive rule not used")
    for s, o in results:
        if o.kind == "crash":
            raise Violation(f"parse of {s!r} raised {type(o.value).__name__}: {excerpt(o.value)}")
        n = 0
        for how in (e.scan_string, e.split):
            o = call(lambda: [x for x in how(s)])
            if o.kind == "crash":
                raise Violation(f"{how.__name__} of {s!r} raised {type(o.value).__name__}: {excerpt(o.value)}")
            n = max(n, len(o.value) if o.ok else 0)
        expect(n <= 2 * len(s) + 2, lambda: f"scanning {s!r} gives {n} matches")
    if loops(g, reach):
        ctx.hit("empty parts repeated")
    elif mine and any(reach.nullable(rules[i]) for i in mine):
        ctx.hit("rule that can be empty")
    ctx.label("accepted")


def loops(g, reach):
    found = []

    def walk(x):
        if isinstance(x, list):
            if x and x[0] in ("many", "skipto") and reach.nullable(x[1]):
                found.append(x)
            for y in x:
                walk(y)

    walk(g["start"])
    for r in g["rules"]:
        walk(r)
    return found


# --------------------------------------------------------------------------- rules that are used before all are defined
def alias(g):
    """another name of a rule: to define it again is to define that rule"""
    k = g[0]
    if k in ("and", "first", "or", "each"):
        return all(alias(x) or x[0] == "empty" for x in g[1])
    return k == "ref" or k in ("name", "many") and alias(g[1])


def decode_history(t):
    n = t.between(2, 3)
    gg = Gen(t, kinds=KINDS, terminals=TERMINALS, rules=n, max_nodes=24, depth=2)
    gg.grammar()
    steps = []
    defined = set()
    rules = [["lit", "a"]] * n

    def empties(rules):
        """which rules can be empty, if the ones not defined yet can not, or can"""
        return [Reach([r if j in defined else other for j, r in enumerate(rules)]).null for other in (["lit", "a"], ["empty"])]

    for _ in range(t.between(3, 9)):
        if defined and t.n(5) < 2:
            steps.append(["use", t.pick(sorted(defined)), t.chars(ALPHABET + " ", 0, 4), t.n(3)])
            continue
        missing = [i for i in range(n) if i not in defined]
        i = t.pick(missing) if missing and t.n(4) else t.n(n)
        gg.left = 6
        body = gg.expr(2, True)
        if alias(body):
            body = ["and", [body, ["opt", ["lit", "c"], None]], 0]
        if t.n(4):
            # mostly not recursive at once, so that there is a history
            now = rules[:i] + [body] + rules[i + 1 :]
            if Reach(now).left_recursive():
                body = ["and", [["lit", t.pick(["a", "b"])], body], t.n(8)]
        before, rules = rules, rules[:i] + [body] + rules[i + 1 :]
        if i in defined and empties(rules) != empties(before):
            rules = before
            continue
        defined.add(i)
        steps.append(["def", i, body])
    for i in t.shuffled(sorted(defined)):
        steps.append(["use", i, t.chars(ALPHABET + " ", 0, 4), t.n(3)])
    return {"n": n, "steps": steps}


def check_history(case, ctx):
    """rules are defined, used, and defined again"""
    n = case["n"]
    rules = [None] * n
    b = gram.Builder([["lit", "a"]] * n)
    b.done = True
    b.forwards = [gram.Forward() for _ in range(n)] if not b.forwards else b.forwards
    uses = redone = 0
    bad = set()
    for step in case["steps"]:
        i = step[1]
        if step[0] == "def":
            redone += rules[i] is not None and uses > 0
            rules[i] = step[2]
        known = [r if r is not None else ["lit", "a"] for r in rules]
        was, bad = bad, Reach(known).left_recursive()
        mine = used(known, ["ref", i])
        try:
            if step[0] == "def":
                o = attempt(lambda: b.forwards[i] << b.build(step[2]))
                expect(o.ok, lambda: f"defining rule {i} as {step[2]} gives {o!r}")
                continue
            if any(rules[j] is None for j in mine):
                if not bad:
                    call(b.forwards[i].parse, step[2])  # may get by without the rule that is not defined yet
                continue
            g = {"rules": known, "start": ["ref", i]}
            if not bad and not easy(g, step[2]):
                continue
            e = b.forwards[i]
            how = [e.parse, e.matches, lambda s: list(e.scan_string(s))][step[3]]
            o = attempt(lambda: how(step[2]))
        except Refused:
            expect(bad or was, lambda: f"{step} of rules {rules} is refused as left recursive, but no rule reaches itself without consuming")
            ctx.hit("refused after use" if uses else "refused")
            return
        except RecursionError:
            o = None
        if bad & mine:
            if o is not None and (step[3] == 1 or i not in bad and o.kind != "crash"):
                ctx.label("left recursive rule not reached")  # or matches() may have hidden it
                return
            raise Violation(f"rules {sorted(bad)} of {rules} are left recursive, but {step} gives {o!r}")
        if bad:
            ctx.label("left recursive rule not used")
            return
        expect(o is not None and o.kind != "crash", lambda: f"{step} of rules {rules} gives {o!r}")
        uses += 1
    ctx.hit("defined again") if redone else ctx.label("accepted")


SUBS = [
    Sub("recursion", cases(decode, 110), check, 20000, 600000),
    Sub("history", cases(decode_history, 160), check_history, 6000, 300000),
]
