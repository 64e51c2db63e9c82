"""C15: failures are ParseExceptions that point into the input."""
import json

from mo_parsing import And, Forward, Group, Literal, OneOrMore, Word, whitespaces
from mo_parsing.exceptions import ParseException
from mo_parsing.regex import Regex

from pbt import gram
from pbt.gen import GrammarGen, cases, inputs
from pbt.lib import Violation, call, excerpt, expect, no_crash
from pbt.props.c13 import CONTEXTS, FIXED, make
from pbt.runner import Sub

ID = "C15"
RULE = (
    "Checks: (errors) random grammars in different whitespace contexts and the list, infix, indentation, quoting, counting and regex helpers "
    "on accepted, mutated, multi-line and non-ASCII strings, parsed partly and whole: position, line, column, messages and marked line of "
    "every failure are recomputed from the string; (furthest) grammars over tokens, sequences, choices, repetitions, options, groups and "
    "recursion: the position is the furthest one at which the reference interpreter saw a token fail; (tokens) sequences of distinct tokens, "
    "some named: position, message. Non-trivial: a failure after the first character (and after a line end, for a fifth of them)."
)
COSTLY = True
ASSUMPTIONS = [
    "with an option or a repetition that matched before the failure, the furthest failure counts",
    "grammars in which whitespace, lookaround, skips or longest choice blur the position are not judged for the furthest position",
]


def judge_error(e, s, whole):
    expect(isinstance(e, ParseException), f"{type(e).__name__} was raised for {s!r}, which is no ParseException")
    loc = e.loc
    expect(isinstance(loc, int) and 0 <= loc <= len(s), f"failing at {loc!r}, which is not a position of {s!r}")
    expect(e.string == s, lambda: f"the failure is about {e.string!r}, but the input was {s!r}")
    before, after = s[:loc], s[loc:]
    lineno = before.count("\n") + 1
    column = len(before.split("\n")[-1]) + 1
    line = before.split("\n")[-1] + after.split("\n")[0]
    for what, got, want in [
        ("lineno", e.lineno, lineno), ("col", e.col, column), ("column", e.column, column), ("line", e.line, line),
        ("mark_inputline", e.mark_inputline(), (line[: column - 1] + ">!<" + line[column - 1:]).strip()),
        ("mark_inputline", e.mark_inputline("@"), (line[: column - 1] + "@" + line[column - 1:]).strip()),
    ]:
        if got != want:
            raise Violation(f"{what} of the failure at {loc} of {s!r} is {got!r} instead of {want!r}")
    message = str(e)
    where = f"(at char {loc}), (line:{lineno}, col:{column})"
    found = f"found {json.dumps(s[loc:loc + 10])}" if after else "found end of text"
    if found not in message and not (after and "found " + json.dumps(s[loc:loc + 10], ensure_ascii=False) in message):
        raise Violation(f"the message of the failure at {loc} of {s!r} has no {found!r}: {message!r}")
    if where not in message:
        raise Violation(f"the message of the failure at {loc} of {s!r} has no {where!r}: {message!r}")
    expect(where in repr(e), lambda: f"repr of the failure has no {where!r}")
    expect(message in e and ParseException in e, "the failure does not contain its own message and class")
    expect("\0no such text" not in e, "the failure contains text which is not in it")
    for c in e.causes:
        if isinstance(c, ParseException):
            str(c), c.loc
    return loc


TAILS = ["\n", "é", "\n\nb", "\u2028", "\t", '"', "\\", "a\nb", "\x00"]


def decode_errors(t):
    gs = None
    if t.n(3) == 2:
        k = t.n(len(FIXED))
        s = [t.pick(FIXED[k][1]) for _ in range(3)]
        gs = {"fixed": k, "ws": 0}
    else:
        gg = GrammarGen(t, rules=t.pick([0, 1]), names=t.n(3) == 2, max_nodes=16)
        g = gg.grammar()
        s = inputs(t, g, 3, 4)
        gs = {"g": g, "ws": t.n(len(CONTEXTS))}
    out = []
    for x in s:
        if t.n(3) == 2:
            i = t.n(len(x) + 1)
            x = x[:i] + t.pick(TAILS) + x[i:]
        out.append(x)
    return {"g": gs, "s": out}


def check_errors(case, ctx):
    e = make(case["g"])
    for s in case["s"]:
        for whole in (False, True):
            o = no_crash(call(e.parse, s, parse_all=whole), f"parse of {s!r}")
            if o.kind == "fail":
                loc = judge_error(o.value, s, whole)
                if loc > 0:
                    ctx.hit("failure inside" if loc < len(s) else "failure at the end")
                if "\n" in s[:loc]:
                    ctx.hit("failure after a line end")
        bad = call(e.parse, s)
        if bad.kind == "fail":
            again = call(e.finalize().parse, s)
            if again.kind != "fail" or excerpt(again.value) != excerpt(bad.value):
                raise Violation(f"a finalized grammar fails differently on {s!r}: {again!r} instead of {bad!r}")


# ---------------------------------------------------------------- furthest failure
KINDS = [(8, "and"), (5, "first"), (4, "many"), (3, "opt"), (3, "group"), (1, "suppress")]
TERMINALS = [(8, "lit"), (4, "word"), (3, "char"), (2, "kw"), (2, "clit")]


class Far(gram.Ref):
    """Knows the positions of all token failures, and the one that no option, choice or repetition recovered from."""

    def __init__(self, *args):
        gram.Ref.__init__(self, *args)
        self.seen = set()

    def fail(self, at):
        self.seen.add(at)
        gram.Ref.fail(self, at)

    def p_first(self, g, i):
        at = i
        for e in g[1]:
            try:
                r = self.parse(e, i)
                return gram.Node(g, r.start, r.end, [r])
            except gram.Fail as f:
                at = max(at, f.at)
        raise gram.Fail(at)

    def p_many(self, g, i):
        if g[2] > 1:
            raise gram.TooMuch()  # fails as a whole
        if g[2] == 1 and i < len(self.s):
            self.parse(g[1], i)
        return gram.Ref.p_many(self, g, i)

    def position(self):
        try:
            self.parse(self.start_spec, self.skip(0))
            return None
        except gram.Fail as f:
            return f.at


def decode_furthest(t):
    gg = GrammarGen(t, rules=t.pick([0, 0, 1]), kinds=KINDS, terminals=TERMINALS, max_nodes=16)
    g = gg.grammar()
    return {"g": g, "s": inputs(t, g, 3, 5)}


def check_furthest(case, ctx):
    g = case["g"]
    e = gram.build(g)
    for s in case["s"]:
        ref = Far(g, s)
        try:
            at = ref.position()
        except gram.TooMuch:
            continue
        o = no_crash(call(e.parse, s), f"parse of {s!r}")
        if at is None or o.ok:
            continue
        loc = o.value.loc
        if loc < at:
            raise Violation(f"{s!r} can be matched up to {at}, but the failure points to {loc}: {excerpt(o.value)}")
        if loc not in ref.seen:
            raise Violation(f"the failure of {s!r} points to {loc}, but nothing failed there (only at {sorted(ref.seen)}): {excerpt(o.value)}")
        if at > 0:
            ctx.hit("furthest")


# ---------------------------------------------------------------- sequences of distinct tokens
NAMES = ["", "", "first thing", "Zahl", "x.y"]


def decode_tokens(t):
    n = t.between(1, 6)
    parts = [["abcdef"[i] * t.between(1, 2), t.pick(NAMES), t.n(4)] for i in range(n)]
    k = t.n(n)
    what = t.pick(["miss", "wrong", "cut", "condition", "raise"])
    spaces = [t.pick(["", " ", "\n", "\n ", " \t"]) for _ in range(n)]
    return {"parts": parts, "k": k, "what": what, "spaces": spaces, "outer": t.pick(NAMES), "wrap": t.n(4), "tail": t.pick(["", " ", "z", "\nz"])}


def check_tokens(case, ctx):
    parts, k, what = case["parts"], case["k"], case["what"]
    exprs = []
    for i, (text, name, kind) in enumerate(parts):
        e = [lambda: Literal(text), lambda: Word(text[0]), lambda: Group(Literal(text)), lambda: Regex(text)][kind]()
        if i == k and what == "condition":
            e = e.add_condition(lambda t, i, z: False, message="it is not so")
        if i == k and what == "raise":
            def act(t, i, z):
                raise ParseException(t.type, i, z, "this will not do")
            e = e / act
        if name:
            e = e.set_parser_name(name)
        exprs.append(e)
    e = And(exprs, whitespaces.CURRENT)
    wrap = case["wrap"]
    if wrap == 1:
        e = Group(e)
    elif wrap == 2:
        f = Forward()
        f << e
        e = f
    elif wrap == 3:
        e = OneOrMore(e)
    if case["outer"]:
        e = e.set_parser_name(case["outer"])
    s = ""
    for i, (text, _, _) in enumerate(parts):
        at = len(s + case["spaces"][i])
        s += case["spaces"][i]
        if i == k:
            if what == "miss":
                s += "".join(x for x, _, _ in parts[i + 1:])
                break
            if what == "wrong":
                s += "z" + text
                break
            if what == "cut":
                break
        s += text
    if what in ("condition", "raise"):
        at = len(case["spaces"][0]) if k == 0 else None
        pos = 0
        for i in range(k + 1):
            pos += len(case["spaces"][i])
            at = pos
            pos += len(parts[i][0])
    else:
        rest = s[at:]
        if what == "miss" and not rest:
            ctx.label("cut")
    s += case["tail"] if what != "cut" else ""
    at += len(s[at:]) - len(s[at:].lstrip(" \t\r\n"))
    o = call(e.parse, s)
    if o.kind != "fail":
        raise Violation(f"{s!r} lacks part {k} ({parts[k]}), but parse did: {o!r}")
    loc = judge_error(o.value, s, False)
    if loc != at:
        raise Violation(f"part {k} of the sequence is missing at {at} of {s!r}, but the failure points to {loc}: {excerpt(o.value)}")
    message = str(o.value)
    name = parts[k][1]
    if what in ("condition", "raise"):
        want = "it is not so" if what == "condition" else "this will not do"
        if want not in message and not name and not (case["outer"] and k == 0):
            raise Violation(f"the message {want!r} is lost: {message!r}")
    elif k > 0 and parts[k][2] == 0:
        want = name or parts[k][0]
        if want not in message:
            raise Violation(f"{want!r} was expected at {loc} of {s!r}, but the message is {message!r}")
    elif k == 0 and case["outer"] and not name:
        if case["outer"] not in message:
            raise Violation(f"{case['outer']!r} fails where it starts, but the message is {message!r}")
    elif k > 0 and name and name not in message:
        raise Violation(f"{name!r} fails where it starts, but the message is {message!r}")
    if at > 0:
        ctx.hit(what)


SUBS = [
    Sub("errors", cases(decode_errors, 160), check_errors, 6000, 200000),
    Sub("furthest", cases(decode_furthest, 120), check_furthest, 8000, 300000),
    Sub("tokens", cases(decode_tokens, 60), check_tokens, 6000, 100000),
]
