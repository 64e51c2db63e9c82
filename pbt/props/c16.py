"""C16: Regex elements agree with Python's re."""
import re
import warnings

from mo_parsing import Group, Literal, MatchFirst, OneOrMore, And, Optional, whitespaces
from mo_parsing.regex import Regex
from mo_parsing.whitespaces import Whitespace

from pbt.gen import cases, mutate
from pbt.lib import Violation, call, expect, must, no_crash, plain
from pbt.runner import Sub

ID = "C16"
RULE = (
    "Patterns are drawn from a grammar of re syntax (classes with ranges and escapes, shorthands, groups of all kinds, lazy and possessive "
    "repetitions, lookaround, backreferences, conditionals, flags, anchors, alternation, unusual characters) and strings from the pattern's own "
    "characters. Checks: (match) parse, parse_all, sequence, choice and scan against re.compile(pattern, DOTALL); (groups) capture_groups by "
    "number and name; (sub) sub with text and functions, replace_with with group references, and transform_string against re.sub. "
    "Non-trivial: the pattern matches at least one character of a string (and has a group, for the latter two)."
)
ASSUMPTIONS = ["Python's re is right", "the empty pattern is refused by the element", "for transform_string: patterns that match no empty text in that string"]

CHARS = "ab01 _-.]^\\xé\n"
LITS = ["a", "b", "ab", "0", "1", " ", "_", "-", "é", "\\.", "\\\\", "\\-", "\\]", "\\n", "\\t", "\\x61", "\\u0062", "\\060", "x", ",", "\\*", "&", "~", "#", "'", '"', "/", "<", "=", "\n"]
SHORT = ["\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "."]
CLASS = ["a", "b", "a-c", "0-9", "\\d", "\\w", "\\s", "\\-", "-", "\\]", "^", ".", "$", "\\\\", "_", "é", "\\n", "\\x61", "\\x30-\\x39", "*", "(", "|", " -0", "\\^", "\\b", "&"]
ANCHORS = ["^", "$", "\\b", "\\B", "\\A", "\\Z"]
REPEATS = ["*", "+", "?", "*?", "+?", "??", "{2}", "{1,2}", "{,2}", "{1,}", "{0,1}", "{2,3}?", "*+", "++", "?+", "{1,2}+"]


SAMPLE = {
    "\\.": ".", "\\\\": "\\", "\\-": "-", "\\]": "]", "\\n": "\n", "\\t": "\t", "\\x61": "a", "\\u0062": "b", "\\060": "0", "\\*": "*",
    "\\d": "1", "\\D": "a", "\\w": "_", "\\W": "-", "\\s": " ", "\\S": "b", ".": "b", "a-c": "c", "0-9": "0", "\\x30-\\x39": "1", " -0": "0",
    "\\^": "^", "\\b": "\x08",
}


class Pat:
    """Draws a pattern together with a text it may match."""

    def __init__(self, t):
        self.t = t
        self.groups = 0
        self.names = []
        self.texts = {}
        self.left = 12

    def alt(self, depth):
        parts = [self.seq(depth) for _ in range(self.t.pick([1, 1, 1, 2, 3]))]
        return "|".join(p for p, _ in parts), self.t.pick(parts)[1]

    def seq(self, depth):
        parts = [self.term(depth) for _ in range(self.t.pick([1, 2, 2, 3, 4]))]
        return "".join(p for p, _ in parts), "".join(x for _, x in parts)

    def term(self, depth):
        t = self.t
        self.left -= 1
        if self.left < 0:
            return "a", "a"
        k = t.n(16)
        quantify = t.n(3) == 2
        if k == 9 and t.n(3) == 2:
            return t.pick(ANCHORS), ""
        if k == 5:
            a = t.pick(SHORT)
            x = SAMPLE[a]
        elif 6 <= k <= 8:
            body = [t.pick(CLASS) for _ in range(t.between(1, 4))]
            no = t.pick(["", "", "^"])
            a = "[" + no + "".join(body) + "]"
            x = "z" if no else SAMPLE.get(body[-1], body[-1][-1])
        elif k <= 4 or k == 9 or depth <= 0:
            a = t.pick(LITS)
            x = SAMPLE.get(a, a)
        elif k <= 11:
            self.groups += 1
            n = self.groups
            a, x = self.alt(depth - 1)
            self.texts[n] = x
            a = "(" + a + ")"
        elif k == 12:
            a, x = self.alt(depth - 1)
            a = "(?:" + a + ")"
        elif k == 13:
            self.groups += 1
            n = self.groups
            name = "nmo"[len(self.names) % 3] + str(n)
            a, x = self.alt(depth - 1)
            self.texts[n] = self.texts[name] = x
            self.names.append(name)
            a = f"(?P<{name}>" + a + ")"
        elif k == 14:
            c = t.n(5)
            if c <= 1:
                return "(?" + "=!"[c] + self.alt(depth - 1)[0] + ")", ""
            if c <= 3:
                return "(?<" + "=!"[c - 2] + t.pick(LITS) + ")", ""
            a, x = self.alt(depth - 1)
            a = "(?>" + a + ")"
        else:
            c = t.n(4)
            if c == 0 and self.groups:
                n = t.between(1, self.groups)
                a, x = "\\" + str(n), self.texts.get(n, "")
            elif c == 1 and self.names:
                n = t.pick(self.names)
                a, x = f"(?P={n})", self.texts[n]
            elif c == 2:
                a, x = self.alt(depth - 1)
                a, x = "(?i:" + a + ")", x.upper()
            elif c == 3 and self.groups:
                a, x = f"(?({t.between(1, self.groups)})a|b)", "a"
            else:
                a = t.pick(LITS)
                x = SAMPLE.get(a, a)
                a = "(?#note)" + a
        if quantify:
            r = t.pick(REPEATS)
            a += r
            x = x * (2 if "2" in r else t.n(3) if r[0] in "*{" else t.n(2) if r[0] == "?" else t.between(1, 2))
        return a, x


def pattern(t):
    p = Pat(t)
    out, x = p.alt(3)
    f = t.n(12)
    if f == 11:
        out = "(?i)" + out
    elif f == 10:
        out = "(?x) " + out
    elif f == 9:
        out = "(?m)" + out
    return out, x


def compiled(p):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return re.compile(p, re.DOTALL)
        except (re.error, OverflowError, RecursionError):
            return None


def samples(t, n, alphabet, x):
    out = []
    for _ in range(n):
        k = t.n(6)
        if k == 5:
            out.append("".join(t.pick(alphabet) for _ in range(t.pick([0, 1, 2, 3, 4, 6, 9]))))
        elif k == 0:
            out.append(x)
        elif k == 1:
            out.append(x + t.pick(["a", "b ", " ", "1", x, "é"]))
        elif k == 2:
            out.append(t.pick(["a", "b ", " ", "1", "\n"]) + x + t.pick(["", "a", " " + x]))
        else:
            out.append(mutate(t, x, alphabet))
    return out


def alphabet_of(p):
    return "aab01" + "".join(c for c in p if c.isalnum() or c in " \n_-.#,'\"]^\\é&") + CHARS[:6]


def decode(t):
    p, x = pattern(t)
    return {"p": p, "s": samples(t, 5, alphabet_of(p), x)}


def exact(e):
    """A parser that skips no whitespace."""
    with Whitespace(""):
        return e.finalize()


WHITE = " \t\r\n"


def lead(s, i=0, white=WHITE):
    while i < len(s) and s[i] in white:
        i += 1
    return i


def make(p):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return must(Regex, p, what=f"Regex({p!r})")


def judge(o, m, what):
    no_crash(o, what)
    if m is None:
        if o.ok:
            raise Violation(f"{what}: re does not match, but parse gives {o!r}")
        return False
    if not o.ok:
        raise Violation(f"{what}: re matches {m.group()!r} at {m.start()}, but {o!r}")
    return True


def check(case, ctx):
    p = case["p"]
    r = compiled(p)
    if r is None or not p:
        ctx.label("not a pattern")
        return
    e = make(p)
    none = Whitespace("")
    alone = exact(e)
    seq = And([Literal("="), Group(e), Optional(Literal("!"))], none)
    spaced = Literal("=") + Group(e)
    either = MatchFirst([And([e, Literal("!")], none), Literal("@"), e])
    for s in case["s"]:
        z = lead(s)
        m = r.match(s, z)
        o = call(e.parse, s)
        if judge(o, m, f"{p!r} on {s!r}"):
            if o.value.as_list() != [m.group()]:
                raise Violation(f"{p!r} on {s!r} gives {o.value.as_list()!r} instead of {[m.group()]!r}")
            if o.value.end != m.end():
                raise Violation(f"{p!r} on {s!r} ends at {o.value.end} instead of {m.end()}")
            if m.group():
                ctx.hit("matched")
        o = call(e("name").parse, s)
        if judge(o, m, f"named {p!r} on {s!r}") and plain(o.value["name"]) != m.group():
            raise Violation(f"named {p!r} on {s!r} gives {plain(o.value['name'])!r} instead of {m.group()!r}")
        for q, i in ((alone, 0),):
            m = r.match(s, i)
            o = call(q.parse, s)
            if judge(o, m, f"{p!r} without whitespace on {s!r}") and o.value.as_list() != [m.group()]:
                raise Violation(f"{p!r} without whitespace on {s!r} gives {o.value.as_list()!r} instead of {[m.group()]!r}")
        for q, i in ((seq, 1), (spaced, lead("=" + s, 1))):
            x = "=" + s
            m = r.match(x, i)
            o = call(q.parse, x)
            if judge(o, m, f"{p!r} in a sequence on {x!r}"):
                got = o.value.as_list()[:2]
                if got != ["=", [m.group()]]:
                    raise Violation(f"{p!r} in a sequence on {x!r} gives {got!r} instead of {['=', [m.group()]]!r}")
        m = r.match(s, z)
        o = call(either.parse, s)
        if m is not None:
            judge(o, m, f"{p!r} as last choice on {s!r}")
        elif not s.startswith("@", z):
            judge(o, m, f"{p!r} as last choice on {s!r}")
        if m is not None and o.value.as_list() not in ([m.group()], [m.group(), "!"]) and not s.startswith("@", z):
            raise Violation(f"{p!r} as last choice on {s!r} gives {o.value.as_list()!r} instead of {[m.group()]!r}")
        scanned = must(lambda: [(a, b, t.as_list()) for t, a, b in alone.scan_string(s)], what=f"scan of {s!r} for {p!r}")
        want, i = [], 0
        while i <= len(s):
            m = r.match(s, i)
            if m is None:
                i += 1
                continue
            want.append((m.start(), m.end(), [m.group()]))
            i = m.end() if m.end() > i else i + 1
        if scanned != want:
            raise Violation(f"scan of {s!r} for {p!r} gives {scanned!r} instead of {want!r}")


# ---------------------------------------------------------------- groups and replacements
def decode_groups(t):
    pt = Pat(t)
    p, x = pt.alt(3)
    n = pt.groups
    refs = ["\\" + str(i) for i in range(1, n + 1)] + [f"\\g<{i}>" for i in range(1, n + 1)] + [f"\\g<{n}>" for n in pt.names]
    rep = "".join(t.pick(["x", "-", "<", "", " ", "é", "a\n"]) if not refs or t.n(3) == 0 else t.pick(refs) for _ in range(t.between(0, 4)))
    return {"p": p, "rep": rep, "s": samples(t, 4, alphabet_of(p), x), "in": t.n(3)}


def outermost(m):
    """texts of the groups that are in no other group, when they took part in their order and are not empty"""
    spans = [x for x in m.regs[1:] if x != (-1, -1)]
    if not spans or any(a >= b for a, b in spans) or spans != sorted(spans, key=lambda x: x[0]):
        return None
    if spans[0][0] < m.start() or any(b > m.end() for _, b in spans):
        return None  # in a lookaround
    out, end = [], -1
    for a, b in spans:
        if a >= end:
            out.append(m.string[a:b])
            end = b
        elif b > end:
            return None
    return out


def check_groups(case, ctx):
    p, rep = case["p"], case["rep"]
    r = compiled(p)
    if r is None or not p:
        ctx.label("not a pattern")
        return
    e = make(p)
    none = Whitespace("")
    caught = e.capture_groups()
    exprs = {
        "sub": e.sub(rep),
        "function": e.sub(lambda m: "<" + (m.group(m.lastindex or 0) or "") + ">"),
        "replace_with": caught.replace_with(rep),
    }
    wrap = [exact, lambda x: exact(Group(x)), lambda x: exact(MatchFirst([And([Literal("=="), x], none), x]))][case["in"]]
    whole = wrap(caught)
    names = r.groupindex
    for s in case["s"]:
        m = r.match(s)
        o = call(whole.parse, s)
        if case["in"] == 2 and s.startswith("="):
            continue
        if not judge(o, m, f"groups of {p!r} on {s!r}"):
            continue
        v = o.value if case["in"] == 0 else o.value[0]  # the groups make one group of tokens
        found = {str(i): m.group(i) for i in range(1, r.groups + 1)}
        found.update({n: m.group(n) for n in names})
        for n, want in found.items():
            got = plain(v[n])
            if want is None:
                if got not in ([], "", None):
                    raise Violation(f"group {n} of {p!r} on {s!r} is {got!r}, but re did not use it")
            elif got != want:
                raise Violation(f"group {n} of {p!r} on {s!r} is {got!r}, re gives {want!r}")
            if want:
                ctx.hit("group")
        want = outermost(m)
        if want is not None:
            got = [plain(x) for x in v]
            if got != want:
                raise Violation(f"the groups of {p!r} on {s!r} are given as {got!r} instead of {want!r}")
            if len(want) > 1:
                ctx.hit("several groups")
        for how, x in exprs.items():
            o = call(wrap(x).parse, s)
            judge(o, m, f"{how} of {p!r} on {s!r}")
            if how == "function":
                want = "<" + (m.group(m.lastindex or 0) or "") + ">"
            else:
                want = m.expand(rep)
            got = o.value.as_string()
            if got != want:
                raise Violation(f"{how} {rep!r} of {p!r} on {s!r} gives {got!r}, re gives {want!r}")
        if all(f.group() for f in r.finditer(s)):
            for how in ("sub", "replace_with"):
                got = must(exact(exprs[how]).transform_string, s, what=f"transform_string of {s!r}")
                want = r.sub(rep, s)
                if got != want:
                    raise Violation(f"transform_string of {s!r} with {how} {rep!r} of {p!r} gives {got!r}, re.sub gives {want!r}")
                if want != s:
                    ctx.hit("transformed")


SUBS = [
    Sub("match", cases(decode, 90), check, 3200, 200000),
    Sub("groups", cases(decode_groups, 90), check_groups, 3200, 200000),
]
