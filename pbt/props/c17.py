"""C17: stop and ignore expressions are honoured as the tokens they are."""
from mo_parsing import (
    And, AnyChar, CaselessKeyword, CaselessLiteral, Char, CharsNotIn, Combine, Group, Keyword, Literal, Many, MatchFirst, OneOrMore, Or,
    Suppress, White, Word, ZeroOrMore, whitespaces,
)
from mo_parsing.helpers import QuotedString
from mo_parsing.infix import one_of
from mo_parsing.regex import Regex
from mo_parsing.whitespaces import Whitespace

from pbt import gram
from pbt.gen import cases
from pbt.lib import Violation, call, no_crash
from pbt.runner import Sub

ID = "C17"
RULE = (
    "Stop and ignore expressions: literals, keywords, caseless ones, character sets, words (with body, bounds and exclusions), complements, "
    "regexes, quoted text, one_of, choices of those, also named, grouped, suppressed and combined, over letters and characters that are "
    "special in regexes. Checks: (stop) a repetition with a stop expression and bounds, followed by the stop expression or not; (ignore) a "
    "sequence and a repetition in a context that ignores 1-2 of them. Non-trivial: the stop matched after at least one item; ignored "
    "text was skipped."
)
ASSUMPTIONS = [
    "the reference tries the expression by itself, character by character, in the order of the alternatives",
    "ignored expressions match some text, which does not begin with a whitespace character",
]

CH = "ab.*-]^\\$|(A1_é\n"
SETS = ["a", "ab", "a-", "-a", "^a", "]", "\\]", ".", "a.", "*+?", "aA", "()", "a1_", "é", "\\", "|", "$^", "b-_", "1"]
LITS = ["a", "b", "ab", ".", "*", "a.", "a*", "-", "]", "\\", "$", "^a", "(a)", "|", "a|b", "A", "é", "\n", "1", "a b", "\\n", "[a", "a{2}", "..."]
KWS = ["a", "ab", "a1", "_", "A", "a.b", "é", "-a"]
PATTERNS = ["a+", "a|b", "[.*]", "a.", "a(?=b)", "(ab)+", "(?:a|ab)b", "\\.+", "[^a\\s]", "a\\b", "(?i:ab)", "a{2}", "ab?|\\*", "b$", "(?P<x>a)b|b"]
KINDS = ["lit", "lit", "char", "word", "wordb", "notin", "kw", "ckw", "clit", "regex", "quoted", "oneof"]


def token(t, depth=1):
    if depth > 0:
        k = t.n(6)
        if k == 5:
            return ["first", [token(t, depth - 1) for _ in range(t.between(2, 3))]]
        if k == 4:
            return [t.pick(["group", "suppress", "name", "combine"]), token(t, depth - 1)]
    k = t.pick(KINDS)
    if k in ("lit", "clit"):
        return [k, t.pick(LITS)]
    if k in ("kw", "ckw"):
        return [k, t.pick(KWS)]
    if k in ("char", "notin"):
        return [k, t.pick(SETS)]
    if k == "word":
        return ["word", t.pick(SETS), None, t.pick([1, 1, 2]), t.pick([None, None, 2, 3]), ""]
    if k == "wordb":
        return ["word", t.pick(SETS), t.pick(SETS), t.pick([1, 1, 2]), t.pick([None, None, 3]), t.pick(["", "", "a"])]
    if k == "regex":
        return ["regex", t.pick(PATTERNS)]
    if k == "quoted":
        return ["quoted", t.pick(["'", "$", "|", "**", "a"])]
    return ["oneof", [t.pick(LITS) for _ in range(t.between(2, 4))]]


def build(g):
    k = g[0]
    if k == "first":
        return MatchFirst([build(x) for x in g[1]])
    if k == "group":
        return Group(build(g[1]))
    if k == "suppress":
        return Suppress(build(g[1]))
    if k == "name":
        return build(g[1])("n")
    if k == "combine":
        return Combine(build(g[1]))
    if k == "oneof":
        return one_of(list(dict.fromkeys(g[1])))
    if k == "word":
        kw = {}
        if g[3] != 1:
            kw["min"] = g[3]
        if g[4] is not None:
            kw["max"] = g[4]
        if g[5]:
            kw["exclude"] = g[5]
        return Word(g[1], g[2], **kw) if g[2] is not None else Word(g[1], **kw)
    return gram.Builder().start(g)


class Ref(gram.Ref):
    def p_word(self, g, i):
        _, init, body, lo, hi, ex = g
        init = [c for c in init if c not in ex]
        body = init if body is None else [c for c in body if c not in ex]
        return gram.Ref.p_word(self, [0, init, body, lo, hi], i)

    def p_oneof(self, g, i):
        best = max((x for x in g[1] if self.s.startswith(x, i)), key=len, default=None)
        if best is None:
            self.fail(i)
        return gram.Node(g, i, i + len(best), [best])

    def p_quoted(self, g, i):
        q = g[1]
        if not self.s.startswith(q, i):
            self.fail(i)
        j = i + len(q)
        e = self.s.find(q, j)
        if e < 0 or "\n" in self.s[j:e] or "\r" in self.s[j:e]:
            self.fail(i)
        return gram.Node(g, i, e + len(q), [self.s[j:e]])

    def p_suppress(self, g, i):
        r = self.parse(g[1], i)
        return gram.Node(g, r.start, r.end, [])

    p_name = p_combine = gram.Ref.p_group

    def at(self, g, i):
        """End of the match at i, or None."""
        try:
            return self.parse(g, i).end
        except gram.Fail:
            return None


def usable(g):
    if g[0] == "word":
        return [c for c in g[1] if c not in g[5]] and (g[2] is None or [c for c in g[2] if c not in g[5]])
    if g[0] == "first":
        return all(usable(x) for x in g[1])
    if g[0] in ("group", "suppress", "name", "combine"):
        return usable(g[1])
    return True


def sample(t, g):
    k = g[0]
    if k == "first":
        return sample(t, t.pick(g[1]))
    if k in ("group", "suppress", "name", "combine"):
        return sample(t, g[1])
    if k in ("lit", "clit", "kw", "ckw"):
        return g[1].upper() if k[0] == "c" and t.n(3) == 2 else g[1]
    if k == "char":
        return t.pick(g[1])
    if k == "notin":
        return t.pick(CH)
    if k == "word":
        return t.pick(g[1]) + "".join(t.pick(g[2] or g[1]) for _ in range(t.n(3)))
    if k == "quoted":
        return g[1] + t.pick(["", "b", ".", "1"]) + g[1]
    if k == "oneof":
        return t.pick(g[1])
    return t.pick(["a", "b", "ab", "aa", "abb", ".", "*", "A"])


BODY = [["word", "ab.*", None, 1, None, ""], ["char", "ab1.*-]^\\$|(A_é"], ["lit", "a"], ["word", "a1", "ab1-", 1, None, ""], ["notin", " \n"], ["char", "ab"]]


def decode_stop(t):
    stop = token(t)
    body = t.pick(BODY)
    s = []
    for _ in range(4):
        parts = [t.pick([sample(t, body), sample(t, body), sample(t, stop), t.pick(CH)]) for _ in range(t.between(1, 6))]
        s.append("".join(p + t.pick(["", " ", "\n", "", " "]) for p in parts))
    return {"stop": stop, "body": body, "lo": t.pick([0, 0, 1, 1, 2, 3]), "hi": t.pick([None, None, None, 2, 3]), "text": t.n(3), "then": t.n(2), "s": s}


def check_stop(case, ctx):
    stop, body, lo, hi = case["stop"], case["body"], case["lo"], case["hi"]
    if not usable(stop):
        return
    if hi is not None and hi < lo:
        hi = lo
    se, be = build(stop), build(body)
    if case["text"] == 2 and stop[0] == "lit":
        se = stop[1]
    if hi is None and lo == 0:
        e = ZeroOrMore(be, stop_on=se)
    elif hi is None and lo == 1:
        e = OneOrMore(be, stop_on=se)
    else:
        e = Many(be, min_match=lo, max_match=10 ** 6 if hi is None else hi, stop_on=se)
    then = case["then"]
    tail = Group(build(stop))("tail")
    whole = And([Group(e), tail], whitespaces.CURRENT) if then else Group(e)
    for s in case["s"]:
        ref = Ref({"start": ["empty"]}, s)
        i = start = end = ref.skip(0)
        items = []
        stopped = failed = False
        while end < len(s):
            i = ref.skip(end)
            if ref.at(stop, i) is not None:
                stopped = True
                break
            try:
                n = ref.parse(body, i)
            except gram.Fail:
                break
            items.append(s[n.start:n.end])
            end = n.end
            if hi is not None and len(items) >= hi:
                break
        failed = len(items) < lo
        want = items
        if then and not failed:
            i = ref.skip(end) if end > start else end
            z = ref.at(stop, i)
            if z is None:
                failed = True
        o = no_crash(call(whole.parse, s), f"parse of {s!r}")
        if failed:
            if o.ok:
                raise Violation(f"{s!r}: {len(items)} items {items!r} before the stop, at least {lo} wanted (then the stop: {bool(then)}), but parse gives {o!r}")
            continue
        if not o.ok:
            raise Violation(f"{s!r}: items {items!r} come before the stop, but {o!r}")
        got = o.value.as_list()[0]
        if got != want:
            raise Violation(f"{s!r}: items before the stop are {want!r}, but parse gives {got!r}")
        if stopped and items:
            ctx.hit("stopped after items")
        elif stopped:
            ctx.label("stopped at once")


# ---------------------------------------------------------------- ignored text
def decode_ignore(t):
    ign = [token(t) for _ in range(t.pick([1, 1, 2]))]
    body = t.pick(BODY[:4])
    s = []
    for _ in range(4):
        parts = [t.pick([sample(t, body), sample(t, t.pick(ign)), sample(t, t.pick(ign)), "b", t.pick(CH)]) for _ in range(t.between(1, 7))]
        s.append("".join(p + t.pick(["", " ", "\n", "", " "]) for p in parts))
    return {"ign": ign, "body": body, "white": t.pick([" \n", " ", "", " \t\r\n"]), "s": s, "how": t.n(3)}


class Skipper(Ref):
    def __init__(self, s, white, ign):
        Ref.__init__(self, {"start": ["empty"]}, s, white=white)
        self.ign = ign
        self.skipped = 0

    def skip(self, i):
        s = self.s
        while True:
            while i < len(s) and s[i] in self.white:
                i += 1
            for g in self.ign:
                e = self.at(g, i)
                if e is not None and e > i:
                    if s[i] in " \t\r\n":
                        raise gram.TooMuch()
                    i = e
                    self.skipped += 1
                    break
            else:
                return i


def check_ignore(case, ctx):
    ign, body, white = case["ign"], case["body"], case["white"]
    if not all(usable(g) for g in ign):
        return
    with Whitespace(white) as w:
        if case["how"] == 1:
            w.add_ignore(*[build(g) for g in ign])
        else:
            for g in ign:
                w.add_ignore(build(g))
        many = OneOrMore(build(body))
        three = And([build(body), Literal("b"), build(body)], whitespaces.CURRENT)
    for s in case["s"]:
        for name, e in (("repetition", many), ("sequence", three)):
            ref = Skipper(s, white, ign)
            items = []
            try:
                end = i = ref.skip(0)
                try:
                    if name == "sequence":
                        for g in (body, ["lit", "b"], body):
                            n = ref.parse(g, ref.skip(end))
                            items.append(s[n.start:n.end])
                            end = n.end
                    else:
                        while end < len(s):
                            n = ref.parse(body, ref.skip(end))
                            items.append(s[n.start:n.end])
                            end = n.end
                except gram.Fail:
                    if name == "sequence" or not items:
                        items = None
            except gram.TooMuch:
                ctx.label("not judged")
                continue
            if items == []:
                items = None
            o = no_crash(call(e.parse, s), f"parse of {s!r}")
            if items is None:
                if o.ok:
                    raise Violation(f"{name} on {s!r} gives {o!r}, but without the ignored text there is no match")
                continue
            if not o.ok:
                raise Violation(f"{name} on {s!r} should give {items!r}, ignoring text: {o!r}")
            got = o.value.as_list()
            if got != items:
                raise Violation(f"{name} on {s!r} should give {items!r}, ignoring text, but gives {got!r}")
            if ref.skipped:
                ctx.hit("ignored")


SUBS = [
    Sub("stop", cases(decode_stop, 90), check_stop, 8000, 400000),
    Sub("ignore", cases(decode_ignore, 90), check_ignore, 8000, 400000),
]
