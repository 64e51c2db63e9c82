"""C11: parse actions and conditions see their match, and decide its value."""
import functools

from mo_parsing import And, Forward, Literal, Many, SkipTo, Word, whitespaces
from mo_parsing.exceptions import ParseException

from pbt import gram
from pbt.gen import GrammarGen, cases, inputs
from pbt.lib import Violation, call, expect, plain, show
from pbt.runner import Sub
from pbt.scopes import BuilderMixin, GenMixin, ScopedMixin, WHITES, context, ignores, samples

ID = "C11"
RULE = (
    "Cases: a random grammar (as C01) where any node may have 1-3 parse actions (that report their arguments, give lists, nothing, other "
    "values, reject or raise) or conditions, of different signatures and callable kinds, and 2-4 inputs. Outcome and "
    "tokens are compared to the reference interpreter applying the same functions to its parse tree. Non-trivial: at least two actions "
    "or conditions were applied to a match that is not empty. scopes: the same with parts built in whitespace contexts of their own (as "
    "C05). trying: a token with 1-3 conditions and actions with callDuringTry, as the target of SkipTo (included or not) or of ...: the "
    "first place where the token is and nothing refuses it, and all that is called with it. callables: builtins (sum, len, sorted, set, min, "
    "join...), classes, class, static and bound methods and callable objects as actions and conditions of a list of numbers, put on by "
    "add_parse_action, / and on a Forward (also one already used): as calling them on the list."
)
COSTLY = True
ASSUMPTIONS = [
    "reference interpreter pbt/gram.py",
    "the location of an empty match is not judged; functions are pure",
    "actions are put on groups and lookarounds through a sequence of that one element",
    "the location of a sequence whose first part skips more whitespace than its surroundings is not judged",
]


class Boom(Exception):
    pass


class Reject(Exception):
    """the function made the part fail"""


def flat(x, out):
    for y in x:
        if isinstance(y, list):
            flat(y, out)
        else:
            out.append(str(y))
    return out


# functions of (items, empty?, loc or None, length of the string or None), as far as arity gives them
def report(items, empty, loc, n):
    parts = ["+".join(flat(items, []))]
    if loc is not None:
        parts.append("_" if empty else str(loc))
    if n is not None:
        parts.append(str(n))
    return ["<" + "|".join(parts) + ">"]


def value_of(kind, items, empty, loc, n):
    """list of tokens, None to keep, or an exception"""
    size = len("".join(flat(items, [])))
    if kind == "report":
        return report(items, empty, loc, n)
    if kind == "none":
        return None
    if kind == "list":
        return ["L", len(items)]
    if kind == "tuple":
        return ["T", size, "t"]
    if kind == "empty":
        return []
    if kind == "same":
        return None
    if kind == "zero":
        return [0]
    if kind == "const":
        return ["K"]
    if kind == "reject":
        if size % 2:
            raise Reject()
        return None
    if kind == "boom":
        if size == 3:
            raise Boom()
        return None
    if kind == "even":
        truth = size % 2 == 0
    elif kind == "few":
        truth = len(items) < 2
    elif kind == "late":
        truth = loc is None or empty or loc > 0
    elif kind == "long":
        truth = n is None or n > 3
    if not truth:
        raise Reject()
    return None


ACTIONS = ["report", "report", "none", "list", "tuple", "empty", "same", "zero", "const", "reject", "boom"]
CONDITIONS = ["even", "few", "late", "long"]
FALSY = [False, None, 0, "", []]
TRUTHY = [True, 1, "yes", [0], [1]]


class Holder:
    def __init__(self, fn):
        self.fn = fn

    def one(self, tokens):
        return self.fn(tokens)

    def two(self, tokens, loc):
        return self.fn(tokens, loc)

    def three(self, tokens, loc, string):
        return self.fn(tokens, loc, string)


class Callable1(Holder):
    def __call__(self, tokens):
        return self.fn(tokens)


class Callable2(Holder):
    def __call__(self, tokens, loc):
        return self.fn(tokens, loc)


class Callable3(Holder):
    def __call__(self, tokens, loc, string):
        return self.fn(tokens, loc, string)


def with_arity(core, arity, style):
    """The same function as different kinds of callables."""
    if arity == 0:
        return lambda: core()
    if style == 1:
        return getattr(Holder(core), ["one", "two", "three"][arity - 1])
    if style == 2:
        return [Callable1, Callable2, Callable3][arity - 1](core)
    if style == 3 and arity == 3:
        return lambda *args: core(*args)
    if style == 4:
        def extra(x, *args):
            return core(*args)

        return functools.partial({1: lambda x, t: core(t), 2: lambda x, t, i: core(t, i), 3: lambda x, t, i, s: core(t, i, s)}[arity], 0)
    return {1: lambda t: core(t), 2: lambda t, i: core(t, i), 3: lambda t, i, s: core(t, i, s)}[arity]


def make(f):
    """The real function for [kind, arity, style]."""
    kind, arity, style = f
    if kind == "const":
        return "K" if style % 2 else (lambda: "K")

    def core(*args):
        items, empty, loc, n = [], True, None, None
        if arity > 0:
            tokens = args[0]
            items = plain(tokens)
        if arity > 1:
            loc = args[1]
            empty = tokens.end <= tokens.start
        if arity > 2:
            n = len(args[2])
            empty = args[2][tokens.start : tokens.end].strip() == ""
        cond = kind in CONDITIONS
        try:
            v = value_of(kind, items, empty, loc, n)
        except Reject:
            if cond:
                return FALSY[style % len(FALSY)]
            raise ParseException(args[0].type, args[0].start, "", "rejected")
        if cond:
            return TRUTHY[style % len(TRUTHY)]
        if kind == "same":
            return args[0]
        if kind == "tuple":
            return tuple(v)
        if kind == "zero":
            return 0
        if kind == "report":
            return v[0]
        return v

    return with_arity(core, arity, style)


ARITY = {"reject": 1, "same": 1, "zero": 0, "const": 0, "none": 0}


def fn_spec(t, kinds):
    k = t.pick(kinds)
    lo = ARITY.get(k, 1)
    if k == "late":
        lo = 2
    if k == "long":
        lo = 3
    return [k, t.between(lo, 3), t.n(5)]


DIRECT = {"lit", "word", "char", "kw", "ckw", "clit", "notin", "any", "regex", "empty", "and", "first", "or", "many", "opt", "combine", "name", "ref"}


class Ref(gram.Ref):
    applied = 0

    def p_act(self, g, i):
        r = self.parse(g[1], i)
        node = gram.Node(g, r.start, r.end, [r])
        for f in g[2]:
            items = gram.tokens(node)
            empty = self.s[node.start : node.end].strip() == ""
            kind, arity = f[0], f[1]
            if kind == "const":
                arity = 0
            try:
                v = value_of(kind, items if arity else [], empty if arity > 1 else True, node.start if arity > 1 else None, len(self.s) if arity > 2 else None)
            except Reject:
                self.fail(i)
            if not empty:
                self.applied += 1
            if v is not None:
                node = gram.Node(g, node.start, node.end, v)
        return node

    def p_combine(self, g, i):
        r = self.parse(g[1], i)
        return gram.Node(g, i, r.end, [g[2].join(map(str, gram.flat_strings(r)))])


class Builder(gram.Builder):
    def direct(self, g):
        """its tokens are what an action on it replaces"""
        if g[0] == "ref":
            r = self.rules[g[1]]
            while r[0] == "and" and len(r[1]) == 1:
                r = r[1][0]
            return r[0] in DIRECT - {"ref", "name"}
        if g[0] == "name":
            return g[1][0] in DIRECT - {"ref", "name"}
        if g[0] == "ws":
            return self.direct(g[2])
        return g[0] in DIRECT

    def _build(self, g):
        if g[0] != "act":
            return gram.Builder._build(self, g)
        e = self.build(g[1])
        if not self.direct(g[1]):
            e = And([e], whitespaces.CURRENT)
        fns = [make(f) for f in g[2]]
        if g[3] == "cond":
            if g[4] % 2 and g[1][0] != "ref":
                return e.add_condition(*fns)
            for f in fns:
                e = e.add_condition(f)
            return e
        if g[4] % 2 and g[1][0] != "ref" and not any(isinstance(f, str) for f in fns):
            return e.add_parse_action(*fns)
        for f in fns:
            e = e / f
        return e(g[5]) if g[4] == 2 else e


class Gen(GrammarGen):
    active = 0

    def node(self, k, depth, free):
        g = GrammarGen.node(self, k, depth, free)
        if g[0] == "many" and g[2:4] == [1, 1]:
            g[3] = 2  # x*1 is x itself
        return g

    def expr(self, depth, free):
        g = GrammarGen.expr(self, depth, free)
        k = self.t.n(5) if self.active else 0
        if k == 3:
            g = ["act", g, [fn_spec(self.t, CONDITIONS) for _ in range(self.t.pick([1, 1, 2]))], "cond", self.t.n(2)]
        elif k == 4:
            g = ["act", g, [fn_spec(self.t, ACTIONS) for _ in range(self.t.pick([1, 1, 2, 3]))], "act", self.t.n(3 if self.names and g[0] != "name" else 2)]
            if g[4] == 2:
                self.named += 1
                g.append("a%d" % self.named)
        return g


def decode(t):
    gg = Gen(t, rules=t.pick([0, 0, 1]), max_nodes=20, names=t.n(3) == 2)
    gg.active = 1
    g = gg.grammar()
    return {"g": g, "s": inputs(t, g, 2, 4)}


def check(case, ctx):
    g = case["g"]
    e = Builder(g["rules"]).start(g["start"])
    judge(case, ctx, e, lambda s: Ref(g, s))


class ScopedRef(ScopedMixin, Ref):
    later = True

    def p_combine(self, g, i):
        r = Ref.p_combine(self, g, i)
        if r.end > i and r.start < i:
            raise gram.TooMuch()
        return r

    def p_act(self, g, i):
        r = Ref.p_act(self, g, i)
        if r.end > r.start > i and not Builder(self.rules).direct(g[1]):
            raise gram.TooMuch()
        if r.end > r.start and not self.s[r.start : r.end].strip():
            raise gram.TooMuch()  # whitespace as a token: report() takes it for an empty match
        return r


class ScopedBuilder(BuilderMixin, Builder):
    pass


class ScopedGen(GenMixin, Gen):
    pass


def decode_scopes(t):
    gg = ScopedGen(t, rules=t.pick([0, 0, 1]), max_nodes=20, names=t.n(3) == 2, kinds=[
        (5, "and"), (3, "first"), (5, "many"), (3, "opt"), (1, "or"), (2, "group"), (1, "suppress"), (7, "ws")])
    gg.active = 1
    rules = [gg.rule() for _ in range(gg.nrules)]
    start = ["and", [["lit", "<"], ["group", gg.expr(4, True)], ["opt", ["lit", ">"], None]], 0]
    outer = [t.pick(WHITES), ignores(t)]
    return {"g": {"rules": rules, "start": start}, "outer": outer, "s": samples(t, rules, start, outer, 2, 4, True)}


def check_scopes(case, ctx):
    g = case["g"]
    white, ign = case["outer"]
    with context(white, ign):
        e = ScopedBuilder(g["rules"]).start(g["start"])
    judge(case, ctx, e, lambda s: ScopedRef(g, s, white, ign))


# --------------------------------------------------------------------------- called while trying
class Trying:
    """conditions and actions of the token "digits", which log their calls"""

    def __init__(self):
        self.log = []

    def condition(self, k, mod, rest):
        def fn(t, l, s):
            self.log.append([k, l, t[0]])
            return int(t[0]) % mod == rest

        return fn

    def action(self, k, mod):
        def fn(t, l, s):
            self.log.append([k, l, t[0]])
            if int(t[0]) % mod == 0:
                raise ParseException(t.type, l, s, "rejected")

        return fn


def decode_trying(t):
    fns = []
    for _ in range(t.between(1, 3)):
        mod = t.between(2, 3)
        fns.append([t.pick(["cond", "act"]), mod, t.n(mod)])
    words = t.some(1, 8, lambda: t.pick(["1", "2", "3", "4", "12", "x", "y"]))
    return {
        "fns": fns, "how": t.pick(["skip", "include", "dots", "nested", "twice"]), "s": " ".join(words), "together": t.n(2),
    }


def check_trying(case, ctx):
    log = Trying()
    fns = case["fns"]

    def token():
        e = Word("0123456789")
        made = [
            log.condition(k, mod, rest) if kind == "cond" else log.action(k, mod) for k, (kind, mod, rest) in enumerate(fns)
        ]
        if case["together"] and all(kind == "cond" for kind, _, _ in fns):
            return e.add_condition(*made, callDuringTry=True)
        for (kind, _, _), fn in zip(fns, made):
            e = e.add_condition(fn, callDuringTry=True) if kind == "cond" else e.add_parse_action(fn, callDuringTry=True)
        return e

    def passes(text):
        """the functions called, and whether all let it pass"""
        for k, (kind, mod, rest) in enumerate(fns):
            ok = int(text) % mod == rest if kind == "cond" else int(text) % mod != 0
            if not ok:
                return k + 1, False
        return len(fns), True

    n = token()
    how = case["how"]
    if how == "skip":
        e = SkipTo(n) + n
    elif how == "include":
        e = SkipTo(n, include=True)
    elif how == "dots":
        e = Literal("<") + ... + n
    elif how == "nested":
        e = SkipTo(Literal("x") | n) + (Literal("x") | n)
    else:
        e = SkipTo(n + Word("xy")) + n
    s = case["s"]
    at = None
    visited = []  # (position, text) of tokens tried, in order
    i = 0
    while i < len(s):
        j = i
        while j < len(s) and s[j].isdigit():
            j += 1
        if how == "nested" and s[i] == "x":
            at = i, i + 1
            break
        if j > i:
            calls, ok = passes(s[i:j])
            visited.append((i, s[i:j], calls))
            if ok and how == "twice":
                ok = s[j : j + 2] in (" x", " y")
            if ok:
                at = i, j
                break
        i += 1
    text = "< " + s if how == "dots" else s
    off = 2 if how == "dots" else 0
    o = call(e.parse, text)
    if o.kind == "crash":
        raise Violation(f"parse of {text!r} raised {type(o.value).__name__}: {str(o.value)[:300]}")
    if at is None:
        expect(not o.ok, lambda: f"no number of {s!r} passes {fns!r}, but parse gave {show(o.value)}")
        ctx.label("refused")
    else:
        skipped = s[: at[0]].rstrip()
        want = ["<"] * (how == "dots") + ([skipped] if skipped else []) + [s[at[0] : at[1]]]
        expect(o.ok, lambda: f"{text!r} with {fns!r} should give {want!r}, but {o!r}")
        got = list(o.value)
        expect(got == want, lambda: f"{text!r} with {fns!r} should give {want!r}, got {got!r}")
    seen = []
    for x in log.log:
        if x not in seen:
            seen.append(x)
    want = [[k, i + off, x] for i, x, calls in visited for k in range(calls)]
    expect(seen == want, lambda: f"{text!r} with {fns!r} should call {want!r}, but called {seen!r}")
    if len(visited) > 1 and len(fns) > 1:
        ctx.hit("refused some")


# --------------------------------------------------------------------------- all kinds of callables
class Made:
    """a class is called like a function"""

    def __eq__(self, other):
        return type(self) is type(other) and self.seen == other.seen

    __hash__ = None

    def __repr__(self):
        return f"{type(self).__name__}{self.seen!r}"


class Made0(Made):
    def __init__(self):
        self.seen = ()


class Made1(Made):
    def __init__(self, tokens):
        self.seen = (list(tokens),)


class Made2(Made):
    def __init__(self, tokens, loc):
        self.seen = (list(tokens), loc)


class Made3(Made):
    def __init__(self, tokens, loc, string):
        self.seen = (list(tokens), loc, string)


class Home:
    @classmethod
    def of_class(cls, tokens):
        return [cls.__name__, *tokens]

    @classmethod
    def of_class3(cls, tokens, loc, string):
        return [cls.__name__, loc, len(string), *tokens]

    @staticmethod
    def static(tokens):
        return [*tokens, "static"]

    @staticmethod
    def static2(tokens, loc):
        return [*tokens, loc]

    def method(self, tokens):
        return [*tokens, "method"]

    def method2(self, tokens, loc):
        return (*tokens, loc)

    def __call__(self, tokens, loc, string):
        return [len(string), *tokens]


CALLABLES = {
    "sum": (sum, 1), "len": (len, 1), "sorted": (sorted, 1), "list": (list, 1), "tuple": (tuple, 1), "set": (set, 1), "any": (any, 1),
    "all": (all, 1), "min": (min, 1), "max": (max, 1), "join": ("".join, 1), "comma": (", ".join, 1),
    "Made0": (Made0, 0), "Made1": (Made1, 1), "Made2": (Made2, 2), "Made3": (Made3, 3),
    "of_class": (Home.of_class, 1), "of_class3": (Home().of_class3, 3), "static": (Home.static, 1), "static2": (Home.static2, 2),
    "wrapped static": (Home.__dict__["static"], 1), "method": (Home().method, 1), "method2": (Home().method2, 2), "object": (Home(), 3),
    "itself": (lambda t: t, 1), "nothing": (lambda t: None, 1),
}


def decode_callables(t):
    return {
        "kind": t.pick(["int", "int", "text"]), "fns": [t.pick(sorted(CALLABLES)) for _ in range(t.between(1, 3))],
        "how": t.pick(["add", "each", "slash", "forward", "forward slash", "use"]), "least": t.n(2), "call": t.n(2),
        "words": t.some(0, 4, lambda: t.pick(["0", "1", "2", "10", "7"])), "gap": t.n(3), "truth": t.pick(["", "", "any", "all"]),
    }


def check_callables(case, ctx):
    word = Word("0123456789")
    if case["kind"] == "int":
        word = word / (lambda t: int(t[0]))
    many = Many(word, min_match=case["least"])
    fns = [CALLABLES[k] for k in case["fns"]]
    real = [f for f, _ in fns]
    how = case["how"]
    e = many
    if how.startswith("forward") or how == "use":
        e = Forward()
        e << And([many], whitespaces.CURRENT)
        if how == "use":
            uses = Literal("<") + e + Literal(">")  # used before it has the actions
    try:
        if how in ("add", "forward", "use"):
            e = e.add_parse_action(*real, **({"callDuringTry": True} if how == "add" and case["call"] else {}))
        elif how == "each":
            for f in real:
                e = e.add_parse_action(f)
        else:
            for f in real:
                e = e / f
        if case["truth"] and how != "use":
            e = e.add_condition({"any": any, "all": all}[case["truth"]])
    except Exception as cause:
        raise Violation(f"{case['fns']!r} was refused ({how}): {type(cause).__name__}: {str(cause)[:200]}")
    p = uses if how == "use" else Literal("<") + e + Literal(">")
    words = case["words"]
    s = "<" + " " * case["gap"] + " ".join(words) + ">"
    o = call(p.parse, s)
    if len(words) < case["least"]:
        expect(not o.ok and o.kind != "crash", lambda: f"{s!r} should fail, but {o!r}")
        return ctx.label("refused")
    tokens = [int(w) for w in words] if case["kind"] == "int" else list(words)
    if not words and any(n > 1 for _, n in fns):
        return ctx.label("not judged")  # the location of an empty match
    raised = False
    try:
        for f, n in fns:
            f = getattr(f, "__func__", f) if isinstance(f, staticmethod) else f
            v = f(*(tokens, 1 + case["gap"], s)[:n])
            if v is not None:
                tokens = list(v) if isinstance(v, (list, tuple)) else [v]
    except Exception:
        raised = True
    if raised:
        expect(o.kind == "crash", lambda: f"{s!r}: {case['fns']!r} ({how}) raises, but parse gave {o!r}")
        return ctx.label("raised")
    if o.kind == "crash":
        raise Violation(f"parse of {s!r} with {case['fns']!r} ({how}) raised {type(o.value).__name__}: {str(o.value)[:300]}")
    if case["truth"] and how != "use" and not {"any": any, "all": all}[case["truth"]](tokens):
        expect(not o.ok, lambda: f"{s!r}: {case['truth']} of {tokens!r} is not true, but {o!r}")
        return ctx.label("rejected")
    expect(o.ok, lambda: f"{s!r} with {case['fns']!r} ({how}) should give {tokens!r}, but {o!r}")
    got = list(o.value)[1:-1]
    expect(
        got == tokens and [type(x) for x in got] == [type(x) for x in tokens],
        lambda: f"{s!r} with {case['fns']!r} ({how}) should give {tokens!r}, got {got!r}",
    )
    ctx.hit("applied") if len(words) > 1 else ctx.label("applied")


def judge(case, ctx, e, make_ref):
    for s in case["s"]:
        ref = make_ref(s)
        boom = False
        try:
            node = ref.run()
        except gram.TooMuch:
            ctx.label("not judged")
            continue
        except Boom:
            boom = True
        o = call(e.parse, s)
        if boom:
            ctx.label("raised")
            expect(o.kind == "crash", lambda: f"{s!r}: an action raised, but parse gave {o!r}")
            continue
        if o.kind == "crash":
            raise Violation(f"parse of {s!r} raised {type(o.value).__name__}: {str(o.value)[:300]}")
        if ref.applied >= 2:
            ctx.hit("applied")
        if node is None:
            expect(not o.ok, lambda: f"{s!r} should fail, but gave {show(o.value)}")
            ctx.label("rejected")
            continue
        want = gram.tokens(node)
        if not o.ok:
            raise Violation(f"{s!r} should give {want!r}, but {o!r}")
        got = o.value.as_list()
        expect(got == want, lambda: f"{s!r} should give {want!r}, got {got!r}")
        ctx.label("accepted")


SUBS = [
    Sub("actions", cases(decode, 170), check, 16000, 800000),
    Sub("scopes", cases(decode_scopes, 170), check_scopes, 6000, 300000),
    Sub("trying", cases(decode_trying, 40), check_trying, 3000, 60000),
    Sub("callables", cases(decode_callables, 30), check_callables, 3000, 100000),
]
