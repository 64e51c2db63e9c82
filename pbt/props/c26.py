"""C26: SkipTo and ... stop at the first place where the target matches."""
from mo_parsing import And, Empty, Group, Literal, ParseResults, SkipTo, whitespaces
from mo_parsing.regex import Regex
from mo_parsing.whitespaces import Whitespace

from pbt import gram
from pbt.gen import ALPHABET, GrammarGen, Sampler, cases, mutate
from pbt.lib import Violation, call, expect, no_crash, plain, show
from pbt.runner import Sub

ID = "C26"
RULE = (
    "skip: a SkipTo with random target, fail and ignore expressions (tokens and small composites, also such that can be empty), including "
    "the target or not, between random prefix and suffix, in whitespace contexts (default, none, other characters, with comments), on texts "
    "that have targets, fail and ignored expressions in random order. ellipsis: sequences with ... written with operators, lists, nested "
    "parts, alternatives (x | ...), strings, also when one part is used to make several expressions. Tokens, ends and _skipped are compared to "
    "a reference that tries every position. Non-trivial: something was skipped, and the text had at least two candidates to stop at."
)
ASSUMPTIONS = [
    "targets, fail and ignore expressions have no conditions or actions (these are not run while looking for the target)",
    "the target is tried after whitespace, the skipped text has no whitespace before the target",
]


# --------------------------------------------------------------------------- reference
class Ref(gram.Ref):
    skipped = 0
    tried = 0

    def p_skip(self, g, i):
        _, target, include, fail, ignore = g
        n = len(self.s)
        loc = i
        while loc <= n:
            before, at = loc, self.skip(loc)
            self.check_fail(fail, at, i)
            while ignore is not None:
                end = self.end_of(ignore, at)
                if end is None or end == at:
                    break
                before, at = end, self.skip(end)
                self.tried += 1
                self.check_fail(fail, at, i)
            try:
                r = self.parse(target, at)
            except gram.Fail:
                loc = at + 1
                continue
            self.skipped += before > i
            kids = [self.s[i:before]] if before > i else []
            if include:
                return gram.Node(g, i, r.end, kids + [r])
            return gram.Node(g, i, at, kids)
        self.fail(i)

    def check_fail(self, fail, at, i):
        if fail is not None and self.end_of(fail, at) is not None:
            self.tried += 1
            self.fail(i)

    def end_of(self, g, at):
        try:
            return self.parse(g, at).end
        except gram.Fail:
            return None


class Builder(gram.Builder):
    text = False  # strings for literals in fail and ignore

    def _build(self, g):
        if g[0] != "skip":
            return gram.Builder._build(self, g)
        _, target, include, fail, ignore = g
        kw = {}
        if include or self.text:
            kw["include"] = include
        if fail is not None:
            kw["fail_on"] = self.part(fail)
        if ignore is not None:
            kw["ignore"] = self.part(ignore)
        return SkipTo(self.part(target), **kw)

    def part(self, g):
        return g[1] if self.text and g[0] == "lit" else self.build(g)


KINDS = [(5, "and"), (4, "first"), (3, "many"), (3, "opt"), (2, "or"), (1, "not"), (2, "group"), (1, "suppress"), (1, "combine")]


def part(t, nodes, depth=2):
    return GrammarGen(t, kinds=KINDS, max_nodes=nodes, depth=depth).grammar()["start"]


def ignored(t):
    """what ends with a character (where the match of a part ends that ends in nothing is not judged)"""
    def one():
        g = part(t, 1, 0)
        return ["lit", "a"] if gram.nullable(g) else g

    k = t.n(6)
    if k == 0:
        return ["many", one(), t.n(2), None, 0]
    if k == 1:
        return ["opt", one(), None]
    if k == 2:
        return ["first", [one(), one()], 0]
    if k == 3:
        return ["and", [one(), one()], 0]
    return one()


def text(t, specs, lo, hi):
    """a text with samples of the expressions in it"""
    out = []
    for _ in range(t.between(lo, hi)):
        k = t.n(len(specs) + 2)
        if k < len(specs):
            x = Sampler(t, {"rules": []}).sample(specs[k])[:8]
            if t.n(4) == 3:
                x = mutate(t, x)
        else:
            x = t.chars(ALPHABET + "x.", 1, 3)
        out.append(x + t.pick(["", " ", "", "  ", "\n", "#", "#b\n"]))
    return "".join(out)[:40]


WHITE = [None, "", " ", "x", "#"]


def decode(t):
    target = part(t, t.pick([1, 3, 5]))
    fail = part(t, t.pick([1, 3])) if t.n(3) == 2 else None
    ignore = ignored(t) if t.n(3) == 2 else None
    include = t.n(2) == 1
    g = ["skip", target, include, fail, ignore]
    prefix = part(t, 1) if t.n(3) == 2 else None
    suffix = None if t.n(3) == 0 else target if t.n(3) and not include else part(t, 2)
    items = ([prefix] if prefix else []) + [g] + ([suffix] if suffix else [])
    top = ["and", items, 0] if len(items) > 1 else g
    if t.n(4) == 3:
        top = ["many", ["and", [["lit", "a"], top], 0], 0, None, 0] if t.n(2) else ["group", top]
    s = []
    for _ in range(3):
        x = text(t, [target] + [y for y in (fail, ignore, suffix) if y], 1, 5)
        if prefix and t.n(4):
            x = Sampler(t, {"rules": []}).sample(prefix)[:4] + t.pick(["", " "]) + x
        s.append(x)
    return {"g": top, "s": s, "ws": t.n(len(WHITE)), "text": t.n(2)}


def context(k):
    ws = WHITE[k]
    if ws is None:
        return None
    if ws == "#":
        with Whitespace() as w:
            w.add_ignore(Regex("#[^\n]*\n"))
        return w
    return Whitespace(ws)


def in_context(k, fn):
    w = context(k)
    if w is None:
        return fn()
    with w:
        return fn()


def reference(k, g, s):
    ws = WHITE[k]
    white = gram.WS if ws in (None, "#") else ws
    return Ref({"rules": [], "start": g}, s, white=white, ignore="#[^\n]*\n" if ws == "#" else None)


def check(case, ctx):
    k = case["ws"]
    b = Builder([])
    b.text = bool(case["text"])
    e = in_context(k, lambda: b.start(case["g"]).finalize())
    for s in case["s"]:
        ref = reference(k, case["g"], s)
        try:
            node = ref.run()
        except gram.TooMuch:
            ctx.label("not judged")
            continue
        o = no_crash(call(e.parse, s), f"parse of {s!r}")
        if node is None:
            expect(not o.ok, lambda: f"{s!r} should fail, but gives {show(o.value)}")
            ctx.label("rejected")
            if ref.tried:
                ctx.hit("failed in between")
            continue
        want = gram.tokens(node)
        expect(o.ok, lambda: f"{s!r} should give {want}, but {o!r}")
        got = o.value.as_list()
        expect(got == want, lambda: f"{s!r} should give {want}, but gives {got}")
        white = ref.white
        if k != 4:
            a, z = s[: o.value.end].rstrip(white), s[: node.end].rstrip(white)
            expect(a == z, lambda: f"{s!r} should match {z!r}, but matches {a!r}")
        ctx.label("accepted")
        if ref.skipped and (ref.tried or ref.steps > 3):
            ctx.hit("skipped")


# --------------------------------------------------------------------------- ellipsis
# items: specs, "..." or ["orskip", spec] for (spec | ...)
def sequence(t):
    n = t.between(2, 5)
    out = []
    for i in range(n):
        k = t.n(6)
        if k < 2 and (not out or out[-1] != "...") and not (out and out[-1][0] == "orskip"):
            out.append("...")
        elif k == 2 and out and out[-1] != "..." and out[-1][0] != "orskip":
            out.append(["orskip", part(t, 1)])
        else:
            out.append(part(t, t.pick([1, 1, 3])))
    if out[-1] == "..." or out[-1][0] == "orskip":
        out.append(part(t, t.pick([1, 3])))
    return out


def decode_dots(t):
    items = sequence(t)
    specs = [x[1] if x[0] == "orskip" else x for x in items if x != "..."]
    case = {"items": items, "style": t.n(5), "cut": t.n(len(items)), "ws": t.n(3), "strings": t.n(2), "other": part(t, 1)}
    s = []
    for _ in range(3):
        x = ""
        for item in items:
            if item == "..." or item[0] == "orskip" and t.n(2):
                x += text(t, specs, 0, 2)
            else:
                spec = item[1] if item[0] == "orskip" else item
                x += Sampler(t, {"rules": []}).sample(spec)[:8]
            x += t.pick(["", " ", " ", "\n"])
        if t.n(4) == 3:
            x = mutate(t, x)
        s.append(x[:40])
    case["s"] = s
    return case


def model(items):
    """the spec of the sequence, where ... is ["name", skip, "_skipped"]"""
    out = []
    for i, item in enumerate(items):
        if item == "...":
            out.append(["name", ["skip", following(items, i), False, None, None], "_skipped"])
        elif item[0] == "orskip":
            out.append(["opt", item[1], None])
            out.append(["name", ["skip", following(items, i), False, None, None], "_skipped"])
        else:
            out.append(item)
    return ["and", out, 0]


def following(items, i):
    return items[i + 1]


def construct(case, items):
    """the same sequence in different spellings"""
    b = Builder([])
    parts = []
    for n, x in enumerate(items):
        if x == "...":
            parts.append(...)
        elif x[0] == "orskip":
            parts.append(b.build(x[1]) | ...)
        elif x[0] == "lit" and case["strings"]:
            parts.append(x[1])
        else:
            parts.append(b.build(x))
    style = case["style"]
    if style == 1 and not any(x[0] == "orskip" for x in items):
        if isinstance(parts[0], type(...)) and isinstance(parts[1], str):
            parts[1] = Literal(parts[1])
        return And(parts, whitespaces.CURRENT)
    for i in (0, 1):
        # operators need an expression to begin with
        if i < len(parts) and isinstance(parts[i], str) and (i == 0 or parts[0] is ...):
            parts[i] = Literal(parts[i])
    for i, x in enumerate(parts):
        if i + 1 < len(parts) and isinstance(x, str) and isinstance(parts[i + 1], str):
            parts[i + 1] = Literal(parts[i + 1])
    cut = case["cut"]
    if style == 2 and 0 < cut < len(parts) - 1 and not (parts[cut] is ... and isinstance(parts[cut + 1], str)):
        # (first parts) + (other parts); the first parts are used once more
        if isinstance(parts[cut], str):
            parts[cut] = Literal(parts[cut])
        if not (parts[cut - 1] is ... and cut == 1) and not (items[cut - 1] == "..." or items[cut - 1][0] == "orskip"):
            return add(parts[:cut]) + add(parts[cut:])
    if style in (3, 4):
        # what ends in ... is used for two expressions
        last = max([i for i, x in enumerate(items) if x == "..." or x[0] == "orskip"], default=None)
        if last is not None and last > 0 and (style == 3 or items[last] != "..." or True):
            head = add(parts[: last + 1])
            head + b.build(case["other"])
            rest = parts[last + 1 :]
            acc = head
            for x in rest:
                acc = acc + x
            return acc
    return add(parts)


def add(parts):
    acc = parts[0]
    for x in parts[1:]:
        acc = acc + x
    return acc


def flat(x):
    if isinstance(x, (list, ParseResults)):
        return [z for y in x for z in flat(y)]
    return [] if x is None or x == "" else [str(x)]


def skips(node, out):
    if node.name == "_skipped":
        out.extend(str(x) for x in gram.tokens(node))
    else:
        for x in node.kids:
            if isinstance(x, gram.Node):
                skips(x, out)
    return out


def check_dots(case, ctx):
    k = case["ws"]
    spec = model(case["items"])
    e = in_context(k, lambda: construct(case, case["items"]))
    top = in_context(k, lambda: Group(e).finalize())
    for s in case["s"]:
        ref = reference(k, spec, s)
        try:
            node = ref.run()
        except gram.TooMuch:
            ctx.label("not judged")
            continue
        o = no_crash(call(top.parse, s), f"parse of {s!r}")
        if node is None:
            expect(not o.ok, lambda: f"{s!r} should fail, but gives {show(o.value)}")
            ctx.label("rejected")
            continue
        want = gram.tokens(node)
        expect(o.ok, lambda: f"{s!r} should give {want}, but {o!r}")
        got = plain(o.value)
        expect(got == want, lambda: f"{s!r} should give {want}, but gives {got}")
        names = skips(node, [])
        found = flat(o.value["_skipped"])
        expect(found == names, lambda: f"{s!r} skips {names}, but _skipped is {found}")
        ctx.label("accepted")
        if names:
            ctx.hit("dots")


SUBS = [
    Sub("skip", cases(decode, 110), check, 12000, 500000),
    Sub("ellipsis", cases(decode_dots, 110), check_dots, 8000, 400000),
]
