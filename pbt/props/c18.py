"""C18: infix notation builds the tree of precedence and associativity."""
from mo_parsing import Char, Group, Keyword, Literal, Suppress, Word
from mo_parsing.infix import LEFT_ASSOC, RIGHT_ASSOC, infix_notation, one_of
from mo_parsing.utils import nums

from pbt.gen import cases
from pbt.lib import Violation, call, must, no_crash, plain
from pbt.runner import Sub

ID = "C18"
RULE = (
    "Cases: a table of 1-6 levels (prefix, suffix, binary and ternary, left and right associative, 1-2 symbols each, given as strings, "
    "literals, keywords, one_of or suppressed, with and without actions; a prefix symbol may also be a binary one), 3 trees of up to 14 "
    "operations written with the parentheses they need, less some (the text then reads as another tree), and random redundant ones and spacing; and the same "
    "texts with an operand, an operator or a parenthesis dropped or doubled. The list of the result must be the tree that an independent precedence-climbing "
    "reader makes of the tokens, actions get each operation of their level once, broken texts are refused. "
    "Non-trivial: trees with at least 2 operations of different levels."
)
ASSUMPTIONS = [
    "the operand of a prefix operator reaches over all operators of its own and tighter levels, and, as its right end is open, so does what a tighter operator "
    "before it takes: `2 ** - 3 * 4` is `2 ** (-(3 * 4))` if `-` is looser than `*`",
    "symbols of one role are no prefixes of each other, except among binary operators; adjacent operators are separated by a space",
]

PREFIX = ["~", "!!", "not", "-", "+", "@"]
SUFFIX = ["!", "%", "'", "--"]
BINARY = ["*", "/", "**", "-", "+", "^", "&&", "or", "and", "<", "<=", "==", ".", ","]
TERNARY = [("?", ":"), ("between", "to"), ("#", "$")]
WORDS = {"not", "or", "and", "between", "to"}


def decode(t):
    levels = []
    prefix, suffix, binary, ternary = map(t.shuffled, (PREFIX, SUFFIX, BINARY, TERNARY))
    for _ in range(t.between(1, 6)):
        k = t.pick(["binary", "binary", "binary", "prefix", "suffix", "ternary"])
        assoc = t.pick(["left", "right"])
        n = t.pick([1, 1, 2])
        if k == "ternary":
            if not ternary:
                continue
            syms = list(ternary.pop())
        else:
            src = {"binary": binary, "prefix": prefix, "suffix": suffix}[k]
            syms = [src.pop() for _ in range(min(n, len(src)))]
            if not syms:
                continue
        style = t.n(5)
        levels.append([k, syms, assoc, style, t.n(4)])
    par = t.pick(["()", "()", "[]"])
    trees = [tree(t, levels, t.pick([1, 2, 3, 5, 8, 14])) for _ in range(3)]
    return {"levels": levels, "par": par, "trees": trees, "noise": [t.n(256) for _ in range(60)], "wrap": t.n(4)}


def tree(t, levels, size):
    """An atom (text) or [level, symbol index, children...]"""
    if size <= 0 or not levels:
        return t.pick(["1", "22", "a", "b", "3"])
    k = t.n(len(levels))
    kind = levels[k][0]
    size -= 1
    if kind in ("prefix", "suffix"):
        return [k, t.n(len(levels[k][1])), tree(t, levels, size)]
    if kind == "binary":
        left = t.n(size + 1)
        return [k, t.n(len(levels[k][1])), tree(t, levels, left), tree(t, levels, size - left)]
    a, b = t.n(size + 1), t.n(size + 1)
    return [k, 0, tree(t, levels, a // 2), tree(t, levels, b // 2), tree(t, levels, max(0, size - a // 2 - b // 2))]


def level(x):
    return -1 if isinstance(x, str) else x[0]


def render(x, levels, noise, drop=False):
    """Tokens of the tree as [kind, text, role of an op, level of an op] where kind is one of operand, op, open, close."""

    def sub(child, most):
        need = level(child) > most
        if need and drop and next(noise) % 2:
            need = False
        extra = next(noise) % 8 == 0
        out = render(child, levels, noise, drop)
        for _ in range(need + extra):
            out = [["open", ""]] + out + [["close", ""]]
        return out

    if isinstance(x, str):
        return [["operand", x]]
    k, i = x[0], x[1]
    kind, syms, assoc = levels[k][:3]
    op = ["op", syms[i], kind, k]
    if kind == "prefix":
        return [op] + sub(x[2], k)
    if kind == "suffix":
        return sub(x[2], k) + [op]
    if kind == "binary":
        le, ri = (k, k - 1) if assoc == "left" else (k - 1, k)
        return sub(x[2], le) + [op] + sub(x[3], ri)
    a, b, c = (k, k - 1, k - 1) if assoc == "left" else (k - 1, k, k)
    return sub(x[2], a) + [["op", syms[0], kind, k]] + sub(x[3], b) + [["op", syms[1], "second", k]] + sub(x[4], c)


def read(tokens, levels, spans=None):
    """The tree of the tokens, by precedence climbing; spans gets each operation with its first and last token."""
    at = 0

    def seen(x, first):
        if spans is not None:
            spans.append((x, first, at - 1))
        return x

    def take():
        nonlocal at
        at += 1
        return tokens[at - 1]

    def expr(limit):
        first = at
        kind, text, *op = take()
        if kind == "operand":
            left = text
        elif kind == "open":
            left = expr(len(levels))
            assert take()[0] == "close", "harness: parentheses"
        else:
            role, k = op
            assert role == "prefix", "harness: operand"
            left = seen([k, levels[k][1].index(text), expr(k)], first)
        while at < len(tokens):
            kind, text, *op = tokens[at]
            if kind != "op" or op[0] == "second" or op[1] > limit:
                break
            take()
            role, k = op
            most = k - 1 if levels[k][2] == "left" else k
            i = levels[k][1].index(text)
            if role == "suffix":
                left = [k, i, left]
            elif role == "binary":
                left = [k, i, left, expr(most)]
            else:
                middle = expr(len(levels))
                assert take()[2:] == ["second", k], "harness: ternary"
                left = [k, 0, left, middle, expr(most)]
            seen(left, first)
        return left

    tree = expr(len(levels))
    assert at == len(tokens), "harness: tokens are left"
    return tree


def write(tokens, par, noise, at=None):
    """The text of the tokens; at gets where each of them is."""
    out = ""
    last = None
    for kind, text, *_ in tokens:
        text = {"open": par[0], "close": par[1]}.get(kind, text)
        tight = True
        if last:
            if kind == "op" and last[0] == "op":
                tight = False
            elif text in WORDS or last[1] in WORDS:
                tight = False
            elif kind == "operand" and last[0] == "operand":
                tight = False
        gap = ["", " ", "", "\n", "  "][next(noise) % 5]
        out += (gap or ("" if tight else " ")) + text
        if at is not None:
            at.append((len(out) - len(text), len(out)))
        last = (kind, text)
    return out


def expected(x, levels):
    if isinstance(x, str):
        return x
    k, i = x[0], x[1]
    kind, syms, _, style, act = levels[k]
    kids = [expected(c, levels) for c in x[2:]]
    quiet = style == 4
    if act == 3:
        return [f"level {k}"]
    if kind == "prefix":
        return kids if quiet else [syms[i]] + kids
    if kind == "suffix":
        return kids if quiet else kids + [syms[i]]
    if kind == "binary":
        return kids if quiet else [kids[0], syms[i], kids[1]]
    return ternary(kids, levels[k])


def hidden(kind, style, part=0):
    """Whether the symbol, of a ternary operator the part of it, is suppressed."""
    if kind == "ternary":
        return style == 4 or style == 2 + part
    return style == 4


def ternary(kids, row):
    _, syms, _, style = row[:4]
    first, second = ([] if hidden("ternary", style, i) else [syms[i]] for i in (0, 1))
    return kids[:1] + first + kids[1:2] + second + kids[2:]


def operations(x, levels, acc):
    if not isinstance(x, str):
        for c in x[2:]:
            operations(c, levels, acc)
        acc.append((x[0], own(x, levels)))
    return acc


def own(x, levels):
    """What the action of this operation is given: its operands already acted on, itself not."""
    k, i = x[0], x[1]
    kind, syms, _, style, _ = levels[k]
    kids = [expected(c, levels) for c in x[2:]]
    if kind == "ternary":
        return ternary(kids, levels[k])
    if style == 4:
        return kids
    if kind == "prefix":
        return [syms[i]] + kids
    if kind == "suffix":
        return kids + [syms[i]]
    return [kids[0], syms[i], kids[1]]


def symbol(text, style, quiet=False):
    if quiet:
        return Suppress(Literal(text))
    if style == 1:
        return Literal(text)
    if style == 2 and text in WORDS:
        return Keyword(text)
    return text


def table(levels, par, log):
    spec = []
    for k, (kind, syms, assoc, style, act) in enumerate(levels):
        if kind == "ternary":
            op = tuple(symbol(x, style, hidden(kind, style, n)) for n, x in enumerate(syms))
        elif len(syms) == 1:
            op = symbol(syms[0], style, hidden(kind, style))
        else:
            op = one_of(syms)
            if style == 4:
                op = Suppress(op)
        arity = {"prefix": 1, "suffix": 1, "binary": 2, "ternary": 3}[kind]
        side = {"prefix": RIGHT_ASSOC, "suffix": LEFT_ASSOC}.get(kind, LEFT_ASSOC if assoc == "left" else RIGHT_ASSOC)
        row = (op, arity, side)
        if act:
            def action(t, i, s, k=k, act=act):
                log.append((k, t.as_list(), i))
                return f"level {k}" if act == 3 else None

            row += ((action,) if act == 1 else [action],) if act != 2 else (action,)
        spec.append(row)
    kw = {}
    if par == "[]":
        kw = dict(lpar=Literal("["), rpar=Suppress(Literal("]")))
    return infix_notation(Word(nums) | Char("ab"), spec, **kw)


def bare(kv):
    """Level and tokens of an action call, as text, less the group that the tokens may be in."""
    k, v = kv
    while isinstance(v, list) and len(v) == 1:
        v = v[0]
    return repr((k, v))


def check(case, ctx):
    levels, par = [tuple(x) for x in case["levels"]], case["par"]
    if not levels:
        return
    levels = [list(x) for x in levels]
    log = []
    e = table(levels, par, log)
    noise_list = case["noise"] or [0]

    def endless():
        while True:
            yield from noise_list

    noise = endless()
    everything = [sym for k, syms, *_ in levels for sym in syms]
    shared = len(set(everything)) != len(everything)
    wrap = case["wrap"]
    whole = {0: e, 1: Group(e), 2: e + ";", 3: e("x")}[wrap]
    for x in case["trees"]:
        if next(noise) % 2:
            tokens = render(x, levels, noise, drop=True)
            meant = read(tokens, levels)
            if meant != x:
                ctx.label("reads otherwise")
            x = meant
        else:
            tokens = render(x, levels, noise)
            assert read(tokens, levels) == x, "the reader and the writer disagree"
        s = write(tokens, par, noise)
        if wrap == 2:
            s += ";"
        del log[:]
        o = no_crash(call(whole.parse, s, parse_all=True), f"parse of {s!r}")
        if not o.ok:
            raise Violation(f"{s!r} is an expression, but {o!r}")
        want = expected(x, levels)
        got = o.value.as_list()
        shape = {0: [want], 1: [[want]], 2: [want, ";"], 3: [want]}[wrap]
        if wrap == 3:
            got = plain(o.value["x"])
            shape = want
            if got == [want]:
                got = want
        if got != shape:
            raise Violation(f"{s!r} should be {shape!r}, but is {got!r}")
        ops = [(k, v) for k, v in operations(x, levels, []) if levels[k][4]]
        calls = [(k, v) for k, v, _ in log]
        if sorted(map(bare, calls)) != sorted(map(bare, ops)):
            raise Violation(f"the actions for {s!r} should be called with {ops!r}, but were with {calls!r}")
        for k, _, i in log:
            if not 0 <= i <= len(s):
                raise Violation(f"an action for {s!r} is called with the location {i}")
        used = {k for k, _ in operations(x, levels, [])}
        if len(used) > 1:
            ctx.hit("tree")
            if any(v[0] == "open" for v in tokens):
                ctx.label("parentheses")
        if shared or wrap == 2:
            continue
        for _ in range(3):
            j = next(noise) % len(tokens)
            kind = tokens[j][0]
            role = tokens[j][2] if kind == "op" else ""
            if role in ("prefix", "suffix"):
                continue  # may be left out, and repeated
            if next(noise) % 2:
                broken = tokens[:j + 1] + tokens[j:]
            else:
                broken = tokens[:j] + tokens[j + 1:]
            if not broken:
                continue
            bad = write(broken, par, noise)
            o = no_crash(call(e.parse, bad, parse_all=True), f"parse of {bad!r}")
            if o.ok:
                raise Violation(f"{bad!r} is no expression, but parses to {o!r}")
            ctx.label("refused")


SUBS = [Sub("tree", cases(decode, 200), check, 2000, 150000)]
