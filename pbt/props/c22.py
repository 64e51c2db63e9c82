"""C22: list, count and nesting helpers read back what was written."""
from mo_parsing import Char, Forward, Group, Literal, OneOrMore, Suppress, Word, ZeroOrMore
from mo_parsing.helpers import QuotedString, counted_array, dict_of, indented_block, nested_expr
from mo_parsing.infix import delimited_list
from mo_parsing.regex import Regex
from mo_parsing.utils import alphas
from mo_parsing.whitespaces import Whitespace

from pbt.gen import cases
from pbt.lib import Violation, call, no_crash, plain
from pbt.runner import Sub

ID = "C22"
RULE = (
    "Subs: (list) delimited lists of words, quoted texts, groups and inner lists with separators of 1-3 characters, combined or not; (count) "
    "counted arrays of words, numbers, groups and arrays with decimal, binary or own counts, in contexts with own or no whitespace, one after the other; "
    "(nested) nested lists with bracket strings, with and without content and ignore expressions; (dict) key/value tables; (indent) "
    "trees of indented lines with blank lines, and with ignored comments, and the same with one line moved. Each text is written from a value with random spacing, and "
    "read back, then with one part left out or doubled. Non-trivial: at least 2 items or a nesting; a moved line that breaks the tree."
)
ASSUMPTIONS = [
    "items contain no whole delimiters (other than in quotes), but may contain parts of them, and are separated by whitespace where they would run together",
    "whether a changed text is still a rendering is decided by a reference reader of the same format",
]


class Noise:
    def __init__(self, numbers):
        self.numbers = numbers or [0]
        self.at = 0

    def __call__(self, n):
        self.at += 1
        return self.numbers[self.at % len(self.numbers)] * (1 + self.at // len(self.numbers)) % n

    def gap(self):
        return ["", " ", "", "  ", "\n", " \t", " "][self(7)]


def noise(t):
    return [t.n(256) for _ in range(24)]


def judge(e, s, want, what):
    """e reads all of s as want; None: it does not."""
    o = no_crash(call(e.parse, s, parse_all=True), f"{what} on {s!r}")
    if want is None:
        if o.ok:
            raise Violation(f"{what} should not accept {s!r}, but gives {o!r}")
        return None
    if not o.ok:
        raise Violation(f"{what} should read {s!r} as {want!r}, but {o!r}")
    if o.value.as_list() != want:
        raise Violation(f"{what} should read {s!r} as {want!r}, but gives {o.value.as_list()!r}")
    return o.value


# --------------------------------------------------------------------------- delimited lists
SEPARATORS = [",", ";", "--", "|", ".", "and", ":=:", "+"]
ITEMS = ["word", "word", "quoted", "group", "list"]


def decode_list(t):
    sep = t.pick(SEPARATORS)
    inner = t.pick([x for x in SEPARATORS if x != sep])
    kind = t.pick(ITEMS)
    return {
        "sep": sep, "inner": inner, "kind": kind, "combine": kind in ("word", "quoted") and t.chance(1, 4), "expr": t.chance(1, 3),
        "items": [[t.chars("xyz", 1, 3) for _ in range(t.between(1, 3))] for _ in range(t.between(1, 6))],
        "noise": noise(t),
    }


def check_list(case, ctx):
    sep, inner, kind, items = case["sep"], case["inner"], case["kind"], case["items"]
    rnd = Noise(case["noise"])
    word = Word("xyz")
    item = {
        "word": word, "quoted": QuotedString("'"), "group": Group(word + "=" + word), "list": Group(delimited_list(word, inner)),
    }[kind]
    s = Literal(sep) if case["expr"] else sep
    e = delimited_list(item, s, combine=True) if case["combine"] else delimited_list(item, s)

    def text(x):
        if kind == "word":
            return x[0]
        if kind == "quoted":
            return "'" + x[0] + "'"
        if kind == "group":
            return x[0] + rnd.gap() + "=" + rnd.gap() + x[-1]
        return join([[v] for v in x], inner)

    def join(texts, by):
        out = texts[0][0]
        for x in texts[1:]:
            out += (rnd.gap() or " " * (by == "and")) + by + (rnd.gap() or " " * (by == "and")) + x[0]
        return out

    def value(x):
        return {"word": x[0], "quoted": x[0], "group": [x[0], "=", x[-1]], "list": x}[kind]

    want = [value(x) for x in items]
    if case["combine"]:
        want = [sep.join(x[0] for x in items)]
    if kind == "quoted" and sep == "and":
        pass
    written = [[text(x)] for x in items]
    s = join(written, sep)
    judge(e, s, want, "the delimited list")
    if len(items) > 1:
        ctx.hit("list")
    judge(e, s + rnd.gap() + sep, None, "the delimited list")
    judge(e, sep + " " + s, None, "the delimited list")
    if len(items) > 1:
        k = 1 + rnd(len(items) - 1)
        judge(e, join(written[:k], sep) + " " + sep + " " + sep + " " + join(written[k:], sep), None, "the delimited list")
        if kind != "list":
            judge(e, join(written[:k], sep) + " " + join(written[k:], sep), None, "the delimited list")
    judge(e, "", None, "the delimited list")


# --------------------------------------------------------------------------- counted arrays
def decode_count(t):
    kind = t.pick(["word", "number", "group", "array"])

    def items(depth, n=None):
        return [items(depth - 1) if depth else t.chars("xy", 1, 3) for _ in range(t.pick([0, 1, 1, 2, 3, 5]) if n is None else n)]

    return {
        "kind": kind, "base": t.pick(["", "", "binary", "letters"]), "ws": t.pick([None, None, ".", " _", "\t"]),
        "arrays": [items(kind == "array") for _ in range(t.between(1, 3))], "noise": noise(t), "off": t.n(8),
    }


def check_count(case, ctx):
    kind, ws = case["kind"], case["ws"]
    rnd = Noise(case["noise"])

    def build():
        def counted(item):
            if case["base"] == "binary":
                return counted_array(item, int_expr=Word("01") / (lambda t: int(t[0], 2)))
            if case["base"] == "letters":
                return counted_array(item, int_expr=Regex("#*;") / (lambda t: len(t[0]) - 1))
            return counted_array(item)

        word = Word("xy")
        item = {
            "word": word, "number": Word("01") if case["base"] == "letters" else Word("89"), "group": Group("<" + word + ">"),
            "array": counted(word) if kind == "array" else None,
        }[kind]
        return OneOrMore(counted(item))

    if ws is None:
        e = build()
    else:
        with Whitespace(ws):
            e = build().finalize()
    blanks = ws or " \n"

    def gap(needed=True):
        n = rnd(3) or (1 if needed else 0)
        return "".join(blanks[rnd(len(blanks))] for _ in range(n))

    def number(n):
        return {"": str(n), "binary": bin(n)[2:], "letters": "#" * n + ";"}[case["base"]]

    digits = "01" if case["base"] == "letters" else "89"

    def text(x):
        if isinstance(x, list):
            return array(x)
        if kind == "number":
            return "".join(digits[c == "x"] for c in x)
        if kind == "group":
            return "<" + gap(False) + x + gap(False) + ">"
        return x

    def array(x, extra=0):
        return number(len(x) + extra) + "".join(gap() + text(v) for v in x)

    def value(x):
        if isinstance(x, list):
            return [value(v) for v in x]
        if kind == "number":
            return "".join(digits[c == "x"] for c in x)
        if kind == "group":
            return ["<", x, ">"]
        return x

    arrays = case["arrays"]
    what = "the counted array"
    s = gap().join(array(x) for x in arrays)
    judge(e, s, [value(x) for x in arrays], what)
    if len(arrays) > 1 or len(arrays[0]) > 1:
        ctx.hit("count")
    if case["base"] == "" and kind == "number" or kind == "array":
        return
    last = arrays[-1]
    head = [array(x) for x in arrays[:-1]]
    judge(e, gap().join(head + [array(last, 1)]), None, what)
    if last:
        judge(e, gap().join(head + [array(last, -1)]), None, what)


# --------------------------------------------------------------------------- nested lists
BRACKETS = [["(", ")"], ["(", ")"], ["[", "]"], ["{", "}"], ["<<", ">>"], ["/*", "*/"], ["<", "/>"], ["begin", "end"]]


def decode_nested(t):
    left = [t.pick([3, 6, 12])]

    def value(depth):
        out = []
        for _ in range(t.pick([0, 1, 2, 3])):
            left[0] -= 1
            if left[0] < 0:
                break
            k = t.n(5)
            out.append(value(depth - 1) if k >= 3 and depth else "'" + t.chars("x ()<>/*", 0, 4) + "'" if k == 2 else t.chars(t.pick(["xyz0.-", "xyz0.-", "x<>/*()[]{}", "begind"]), 1, t.pick([1, 3, 6])))
        return out

    return {
        "brackets": t.pick(BRACKETS), "content": t.pick(["", "", "word", "pair"]), "ignore": t.pick(["default", "none", "own"]),
        "value": value(4), "noise": noise(t), "cut": t.n(40),
    }


def check_nested(case, ctx):
    (a, b), content, ignore = case["brackets"], case["content"], case["ignore"]
    rnd = Noise(case["noise"])

    def tidy(x):
        """The value with only such items as the grammar knows."""
        out = []
        for v in x:
            if isinstance(v, list):
                out.append(tidy(v))
            elif v.startswith("'"):
                if ignore != "none":
                    out.append(v)
            elif content:
                out.append("".join(c for c in v if c in "xyz") or "x")
            else:
                while a in v or b in v:
                    v = v.replace(a, "").replace(b, "")
                if v:
                    out.append(v)
        return out

    want = tidy(case["value"])
    item = {"": None, "word": Word("xyz"), "pair": Group(Word("xyz") + "=" + Word("xyz"))}[content]
    kw = {} if ignore == "default" else {"ignore_expr": None if ignore == "none" else Regex("'[^']*'")}
    e = nested_expr(a, b, content=item, **kw)
    words = a == "begin"

    def tokens(x):
        out = [a]
        for v in x:
            if isinstance(v, list):
                out += tokens(v)
            elif content == "pair" and not v.startswith("'"):
                out += [v, "=", v]
            else:
                out.append(v)
        return out + [b]

    def write(toks):
        out = ""
        last = None
        for v in toks:
            brackets = (last in (a, b)) + (v in (a, b))
            gap = rnd.gap()
            if last is not None and not gap and (not brackets or words or len(a + b) > 2 and brackets < 2) and "=" not in (last, v):
                gap = " "
            out += (gap if last is not None else "") + v
            last = v
        return out

    def value(x):
        return [value(v) if isinstance(v, list) else [v, "=", v] if content == "pair" and not v.startswith("'") else v for v in x]

    what = "the nested expression"
    toks = tokens(want)
    judge(e, write(toks), [value(want)], what)
    if any(isinstance(v, list) for v in want):
        ctx.hit("nested")
    k = case["cut"] % len(toks)
    if toks[k] in (a, b):
        judge(e, write(toks[:k] + toks[k + 1:]), None, what)
        judge(e, write(toks[:k + 1] + toks[k:]), None, what)


# --------------------------------------------------------------------------- tables
def decode_dict(t):
    return {
        "rows": [[t.chars("xyz", 1, 2) + str(j), t.pick(["word", "number", "two", "text"]), t.chars("abc", 1, 3), t.chars("abc", 1, 2)]
                 for j in range(t.between(1, 5))],
        "mark": t.pick([":", "=", "->", ""]), "noise": noise(t), "named": t.n(2),
    }


def check_dict(case, ctx):
    rnd = Noise(case["noise"])
    rows, mark = case["rows"], case["mark"]
    key = Word("xyz0123456789")
    val = Group(Suppress("(") + Word("abc")("first") + Suppress(",") + Word("abc") + Suppress(")")) | Word("abc") | QuotedString("'") | Regex(
        r"\+\d+"
    ) / (lambda t: int(t[0]))
    e = dict_of(key, Suppress(mark) + val if mark else val)
    whole = e("table") if case["named"] else e
    out, want, lookup = "", [], {}
    for k, kind, x, y in rows:
        text, v = {
            "word": (x, x), "number": ("+%d" % len(x + y), len(x + y)), "two": ("(" + x + "," + y + ")", [x, y]), "text": ("'" + x + " " + y + "'", x + " " + y),
        }[kind]
        out += (rnd.gap() or " ") + k + rnd.gap() + mark + (rnd.gap() or " " * (not mark)) + text
        want.append([k, v])
        lookup[k] = v
    s = out.strip()
    r = judge(whole, s, [[want]] if case["named"] else [want], "dict_of")
    table = r["table"] if case["named"] else r
    for k, v in lookup.items():
        got = plain(table[k])
        if got != v:
            raise Violation(f"{k!r} of {s!r} should be {v!r}, but is {got!r}")
    if len(rows) > 1:
        ctx.hit("dict")
    if mark:
        judge(whole, s + " x " + mark, None, "dict_of")
    judge(whole, s + " x", None, "dict_of")


# --------------------------------------------------------------------------- indentation
def decode_indent(t):
    left = [t.pick([3, 6, 10, 16])]

    def block(depth):
        out = []
        for _ in range(t.between(1, 4)):
            left[0] -= 1
            word = t.chars("xy", 1, 2)
            out.append([word, block(depth - 1)] if depth and left[0] > 0 and t.chance(1, 2) else word)
            if left[0] <= 0:
                break
        return out

    return {"tree": block(4), "noise": noise(t), "move": t.n(16), "by": t.pick([-4, -3, -2, -1, 1, 2, 3]), "style": t.n(2), "comments": t.n(3)}


def lines(tree, column, rnd, steps):
    out = []
    for x in tree:
        if isinstance(x, str):
            out.append([column, x, False])
        else:
            out.append([column, x[0], True])
            out += lines(x[1], column + 1 + rnd(4), rnd, steps)
    return out


def read_lines(rows):
    """The tree of [column, word, opens a block] rows, or None."""
    at = [0]

    def block(parent, top):
        column = rows[at[0]][0]
        if top and column != 1 or not top and column <= parent[-1]:
            return None
        out = []
        while at[0] < len(rows) and rows[at[0]][0] == column:
            _, word, opens = rows[at[0]]
            at[0] += 1
            if not opens:
                out.append(word)
                continue
            inner = block(parent + [column], False) if at[0] < len(rows) else None
            if inner is None:
                return None
            out.append([word, inner])
        if at[0] < len(rows) and rows[at[0]][0] not in parent:
            return None
        return out

    tree = block([], True)
    return tree if at[0] == len(rows) else None


def check_indent(case, ctx):
    rnd = Noise(case["noise"])
    comments = case.get("comments", 0)
    with Whitespace() as w:
        if comments:
            w.add_ignore(Regex(r"#[^\n]*"))
        stmt = Forward()
        block = indented_block(stmt)
        stmt << (Group(Word("xy") + Suppress(":") + block) | Word("xy"))
        e = indented_block(stmt, False) if case["style"] else indented_block(stmt, indent=False)

    def value(tree):
        return [[x] if isinstance(x, str) else [[x[0], value(x[1])]] for x in tree]

    def write(rows):
        out = []
        for column, word, opens in rows:
            if rnd(6) == 0:
                out.append([" " * rnd(5), ""][rnd(2)])
            if comments and out and rnd(5) == 0:
                out.append(" " * rnd(5) + "# x")
            note = ["", " # y:", "#"][rnd(3)] if comments else ""
            out.append(" " * (column - 1) + word + (rnd(3) * " " + ":" if opens else "") + " " * (rnd(8) == 0) + note)
        return "\n".join(out).lstrip("\n") + "\n" * rnd(2)

    rows = lines(case["tree"], 1, rnd, None)
    if read_lines(rows) != case["tree"]:
        raise AssertionError("reference reader")
    s = write(rows)
    if s[:1].isspace():
        s = s.lstrip()
    judge(e, s, [value(case["tree"])], "the indented block")
    if any(not isinstance(x, str) for x in case["tree"]):
        ctx.hit("tree")
    k = 1 + case["move"] % len(rows)
    if k < len(rows):
        moved = [list(r) for r in rows]
        moved[k][0] = max(1, moved[k][0] + case["by"])
        tree = read_lines(moved)
        s = write(moved)
        if s[:1].isspace():
            s = s.lstrip()
        judge(e, s, None if tree is None else [value(tree)], "the indented block")
        ctx.hit("broken" if tree is None else "moved")


SUBS = [
    Sub("list", cases(decode_list, 60), check_list, 1000, 60000),
    Sub("count", cases(decode_count, 60), check_count, 800, 50000),
    Sub("nested", cases(decode_nested, 70), check_nested, 1000, 60000),
    Sub("dict", cases(decode_dict, 60), check_dict, 600, 40000),
    Sub("indent", cases(decode_indent, 60), check_indent, 800, 60000),
]
_ = (Char, alphas, ZeroOrMore)
