"""C31: ready-made actions and conditions do what they say, for any expression they are attached to."""
from mo_parsing import Char, Group, Literal, OneOrMore, Optional, ParseException, Regex, Suppress, Word, ZeroOrMore
from mo_parsing import helpers
from mo_parsing.helpers import comma_separated_list, makeHTMLTags, matchOnlyAtCol, quoted_string, remove_quotes, stripHTMLTags, token_map
from mo_parsing.utils import alphas, col, line, lineno, nums, parsing_unicode

from pbt.gen import cases
from pbt.lib import Violation, call, expect, must, no_crash, plain
from pbt.props import c29
from pbt.runner import Sub

ID = "C31"
RULE = (
    "column: texts of 1-5 lines with words, a word expression (also in a group, after another part, or in a repetition) with matchOnlyAtCol(n), searched and "
    "parsed; the places found must be those at column n of their line, by counting characters; col, line and lineno of every position are compared to the "
    "counts too. tokens: token_map with 0-2 arguments, upcase_tokens, downcase_tokens and remove_quotes on sequences, repetitions and choices of "
    "words, numbers and groups, compared to the function applied to each item of the plain expression. condition: add_condition with one or several "
    "functions, a message and fatal on a word of a choice or repetition: only accepted words match, the message is the one given, and a "
    "fatal failure ends the parse. comma: lines of comma separated items (words, quoted, empty, with blanks) against a reader. strip: texts with tags, "
    "whose tags are found by a reference reader, with stripHTMLTags. unicode: the character sets of parsing_unicode against their ranges and "
    "str.isalpha, isdigit, isspace, and words made of them. Non-trivial: a match is at the column and another is not; two items; a condition "
    "that accepts and refuses; two items one of which is quoted or empty; a tag that is removed; a character at the edge of a range."
)
ASSUMPTIONS = [
    "a failure of a fatal condition is any exception that ends the parse",
    "Word of no characters at all is not judged",
    "an item of a comma separated list that starts with a quoted text ends there",
]
LETTERS = "abXYz"


# --------------------------------------------------------------------------- columns
def decode_column(t):
    rows = []
    for _ in range(t.between(1, 5)):
        rows.append("".join(t.pick(["", " ", "  ", "   "]) + t.chars("ab", 1, 3) for _ in range(t.between(0, 4))))
    return {"s": "\n".join(rows) + t.pick(["", "\n"]), "n": t.between(1, 9), "shape": t.pick(["word", "group", "many", "after", "named", "choice"])}


def check_column(case, ctx):
    s, n, shape = case["s"], case["n"], case["shape"]
    words = []  # (start, end, column)
    i = 0
    while i < len(s):
        if s[i] in "ab":
            j = i
            while j < len(s) and s[j] in "ab":
                j += 1
            words.append((i, j, i - (s.rfind("\n", 0, i) + 1) + 1))
            i = j
        else:
            i += 1
    for i in range(len(s) + 1):
        start = s.rfind("\n", 0, i) + 1
        end = s.find("\n", i)
        end = len(s) if end < 0 else end
        if i < len(s) and s[i] == "\n":
            continue  # whether the end of a line is its last column, or the first of the next, is not judged
        expect(col(i, s) == i - start + 1, lambda: f"col({i}, {s!r}) is {col(i, s)}")
        expect(lineno(i, s) == s.count("\n", 0, i) + 1, lambda: f"lineno({i}, {s!r}) is {lineno(i, s)}")
        expect(line(i, s) == s[start:end], lambda: f"line({i}, {s!r}) is {line(i, s)!r}")
    at = Word("ab").add_parse_action(matchOnlyAtCol(n)) if len(s) % 2 else Word("ab") / matchOnlyAtCol(n)
    if shape == "many":
        e = OneOrMore(at)
        want = [[s[a:b] for a, b, c in words]] if words and all(c == n for _, _, c in words) else None
        o = no_crash(call(e.parse, s, parse_all=True), f"{shape} of {s!r}")
        expect(o.ok == (want is not None), lambda: f"words at column {n} of {s!r} give {o!r}")
        if want:
            expect(o.value.as_list() == want[0], lambda: f"words at column {n} of {s!r} give {o!r}")
        return
    e = {"word": at, "group": Group(at), "after": at + Optional(";"), "named": at("w"), "choice": at | Literal(";")}[shape]
    found = [(a, b) for _, a, b in must(lambda: list(e.scan_string(s)), what=f"scan of {s!r}")]
    want = []
    i = 0
    while True:
        # the word at this column that is first found, from any character on
        nxt = next(((p, b) for a, b, c in words for p in range(max(a, i), b) if c + p - a == n), None)
        if nxt is None:
            break
        want.append(nxt)
        i = nxt[1]
    expect(found == want, lambda: f"words at column {n} of {s!r} are at {found}, not {want}")
    if want and len(want) < len(words):
        ctx.hit("column")


# --------------------------------------------------------------------------- token_map and friends
FUNCTIONS = {
    "len": (lambda x: len(x), []), "add": (lambda x, y: x + y, ["-"]), "put": (lambda x, y, z: y + x + z, ["<", ">"]),
    "int": (lambda x, base=10: int(x, base) if isinstance(x, str) and x.isdigit() else x, [16]), "up": (None, []), "down": (None, []), "quotes": (None, []),
    "number": (None, []), "type": (lambda x: type(x).__name__ + str(x), []),
}


def decode_tokens(t):
    return {
        "items": [t.chars(t.pick([LETTERS, LETTERS + "019", "01"]), 1, 4) for _ in range(t.between(1, 5))], "fn": t.pick(list(FUNCTIONS)), "shape": t.pick(["many", "and", "opt", "star"]),
        "wrap": t.pick(["", "group", "after", "named"]), "gap": [t.pick([" ", "  ", "\n", "\t"]) for _ in range(6)],
    }


def check_tokens(case, ctx):
    items, name = case["items"], case["fn"]
    word = Word(alphas + nums)
    if name == "quotes":
        word = quoted_string
        items = ['"' + x + '"' if len(x) % 2 else "'" + x + "'" for x in items]
    s = ""
    for k, x in enumerate(items):
        s += (case["gap"][k % 6] if k else "") + x
    body = {
        "many": lambda: OneOrMore(word), "star": lambda: ZeroOrMore(word), "and": lambda: sum([word] * (len(items) - 1), word + Optional(";")),
        "opt": lambda: Optional(word) + ZeroOrMore(word),
    }[case["shape"]]
    fn, args = FUNCTIONS[name]
    values = items
    if name == "number":
        seen = []

        def fn(x):
            seen.append(x)
            return f"{len(seen)}{x}"

    if name == "type":
        word = Regex(r"\d+(?![A-Za-z0-9])") / (lambda t: int(t[0])) | word
        values = [int(x) if x.isdigit() else x for x in items]
    if name == "quotes":
        e = OneOrMore(word / remove_quotes)
        want = [x[1:-1] for x in items]
    elif fn is None:
        e = body() / (helpers.upcase_tokens if name == "up" else helpers.downcase_tokens)
        want = [x.upper() if name == "up" else x.lower() for x in items]
    else:
        e = body() / token_map(fn, *args)
        want = [f"{k + 1}{x}" for k, x in enumerate(items)] if name == "number" else [fn(x, *args) for x in values]
    wrap = case["wrap"]
    e = {"": lambda: e, "group": lambda: Group(e), "after": lambda: Literal("=") + e, "named": lambda: Literal("=") + Group(e)("x")}[wrap]()
    s = ("= " if wrap in ("after", "named") else "") + s
    o = no_crash(call(e.parse, s, parse_all=True), f"{name} of {s!r}")
    shape = {"": want, "group": [want], "after": ["="] + want, "named": ["=", want]}[wrap]
    if not o.ok:
        raise Violation(f"{name} for each item of {s!r} should give {shape!r}, but {o!r}")
    expect(o.value.as_list() == shape, lambda: f"{name} for each item of {s!r} should give {shape!r}, but gives {o.value.as_list()!r}")
    if wrap == "named":
        expect(plain(o.value["x"]) in (want, [want]), lambda: f"{name}: x of {s!r} is {plain(o.value['x'])!r}")
    if len(items) > 1:
        ctx.hit("tokens")


# --------------------------------------------------------------------------- conditions
def decode_condition(t):
    return {
        "words": [t.chars("abc", 1, 3) for _ in range(t.between(1, 5))], "tests": [t.pick(["short", "a", "odd", "not b"]) for _ in range(t.between(1, 3))],
        "message": t.pick([None, "not this", "no {{x}} %s"]), "fatal": t.chance(1, 4), "at once": t.chance(1, 2), "shape": t.pick(["one", "many", "choice", "group"]),
    }


TESTS = {"short": lambda x: len(x) < 3, "a": lambda x: "a" in x, "odd": lambda x: len(x) % 2 == 1, "not b": lambda x: not x.startswith("b")}


def check_condition(case, ctx):
    words, shape, fatal = case["words"], case["shape"], case["fatal"]
    called = []

    def cond(k):
        def fn(t, l, s):
            called.append((k, t[0]))
            return TESTS[k](t[0])

        return fn

    e = Word("abc")
    kw = {}
    if case["message"]:
        kw["message"] = case["message"]
    if fatal:
        kw["fatal"] = True
    if case["at once"]:
        e = e.add_condition(*map(cond, case["tests"]), **kw)
    else:
        for k in case["tests"]:
            e = e.add_condition(cond(k), **kw)
    good = [all(TESTS[k](w) for k in case["tests"]) for w in words]
    s = " ".join(words)
    if shape == "one":
        whole, want = e, [words[0]] if good[0] else None
        s = words[0]
        good = good[:1]
    elif shape == "group":
        whole, want = Group(e) + ";", [[words[0]], ";"] if good[0] else None
        s = words[0] + ";"
        good = good[:1]
    elif shape == "many":
        whole, want = OneOrMore(e), words if all(good) else None
    else:
        whole, want = OneOrMore(e | Word("abc") / (lambda t: "other")), [w if g else "other" for w, g in zip(words, good)]
    if fatal and not all(good):
        want = None
    o = call(whole.parse, s, parse_all=True)
    if not fatal or all(good):
        o = no_crash(o, f"parse of {s!r}")
    what = f"words that are {case['tests']}{' (fatal)' if fatal else ''}, {shape} of {s!r}"
    expect(o.ok == (want is not None), lambda: f"{what}: {o!r}, expected {want}")
    if want is not None:
        expect(o.value.as_list() == want, lambda: f"{what}: {o!r}, expected {want}")
    elif not fatal and shape == "one" and case["message"]:
        expect(isinstance(o.value, ParseException) and case["message"] in str(o.value), lambda: f"{what}: the message {case['message']!r} is not in {str(o.value)!r}")
    # the conditions are asked in order, up to the first that refuses
    first = words[0]
    order = []
    for k in case["tests"]:
        order.append((k, first))
        if not TESTS[k](first):
            break
    expect(called[: len(order)] == order, lambda: f"{what}: conditions are called {called}, expected first {order}")
    if want is not None and not all(good) or len(good) > 1 and any(good) and not all(good):
        ctx.hit("condition")


# --------------------------------------------------------------------------- comma separated lists
def decode_comma(t):
    items = []
    for _ in range(t.between(1, 6)):
        k = t.n(5)
        if k == 0:
            x = ""
        elif k == 1:
            q = t.pick("'\"")
            x = q + t.chars("ab, ;", 0, 5) + q
        else:
            x = t.chars("abc1.-", 1, 3) + "".join(t.pick([" ", "  "]) + t.chars("abc1", 1, 2) for _ in range(t.pick([0, 0, 1])))
        items.append([t.pick(["", " ", "  "]), x, t.pick(["", " "])])
    return {"items": items}


def check_comma(case, ctx):
    items = case["items"]
    s = ",".join("".join(x) for x in items)
    want = [x[1] for x in items]
    o = no_crash(call(comma_separated_list.parse, s, parse_all=True), f"the comma separated list of {s!r}")
    if not o.ok:
        raise Violation(f"the comma separated list of {s!r} should be {want!r}, but {o!r}")
    expect(o.value.as_list() == want, lambda: f"the comma separated list of {s!r} should be {want!r}, but is {o.value.as_list()!r}")
    if len(want) > 1 and any(x == "" or x[0] in "'\"" for x in want):
        ctx.hit("comma")


# --------------------------------------------------------------------------- tags
def decode_strip(t):
    s = ""
    for _ in range(t.between(1, 5)):
        s += c29.write(t, t.pick(c29.TAGS), []) + t.pick(["", "text", " a < b ", "x  y", "\n", "&lt;", "<!-- c -->"])
    if t.chance(1, 3):
        i = t.n(len(s) + 1)
        s = s[:i] + t.pick(["", "<", ">", "/", '"']) + s[i + t.n(2) :]
    return {"s": s.replace("\\", ""), "in": t.pick(["regex", "skip"])}


def strip(s):
    out, i = "", 0
    while i < len(s):
        j = i
        r = c29.open_at(s, i, None) or c29.close_at(s, i, None)
        if r:
            i = r[0]
        else:
            out += s[j]
            i += 1
    return out


def check_strip(case, ctx):
    s = case["s"]
    want = strip(s)
    e = Regex(r"(?s).*") / stripHTMLTags
    got = must(lambda: stripHTMLTags([s], 0, s), what=f"stripHTMLTags of {s!r}")
    expect(got == want, lambda: f"stripHTMLTags of {s!r} is {got!r}, not {want!r}")
    if s.strip() == s and s:
        o = no_crash(call(e.parse, s), f"stripHTMLTags of {s!r}")
        expect(o.ok and list(o.value) == [want], lambda: f"stripHTMLTags as an action on {s!r} gives {o!r}, not {want!r}")
    if want != s:
        ctx.hit("strip")


# --------------------------------------------------------------------------- character sets
SETS = ["Latin1", "LatinA", "LatinB", "Greek", "Cyrillic", "Chinese", "Japanese", "Korean", "CJK", "Thai", "Arabic", "Hebrew", "Devanagari"]
RANGES = {
    "Latin1": [(0x20, 0x7E), (0xA0, 0xFF)], "LatinA": [(0x100, 0x17F)], "LatinB": [(0x180, 0x24F)], "Cyrillic": [(0x400, 0x4FF)], "Hebrew": [(0x590, 0x5FF)],
    "Greek": [
        (0x370, 0x3FF), (0x1F00, 0x1F15), (0x1F18, 0x1F1D), (0x1F20, 0x1F45), (0x1F48, 0x1F4D), (0x1F50, 0x1F57), (0x1F59, 0x1F59), (0x1F5B, 0x1F5B),
        (0x1F5D, 0x1F5D), (0x1F5F, 0x1F7D), (0x1F80, 0x1FB4), (0x1FB6, 0x1FC4), (0x1FC6, 0x1FD3), (0x1FD6, 0x1FDB), (0x1FDD, 0x1FEF), (0x1FF2, 0x1FF4),
        (0x1FF6, 0x1FFE),
    ],
    "Chinese": [(0x4E00, 0x9FFF), (0x3000, 0x303F)], "Japanese": [(0x4E00, 0x9FBF), (0x3000, 0x303F), (0x3040, 0x309F), (0x30A0, 0x30FF)],
    "Korean": [(0xAC00, 0xD7AF), (0x1100, 0x11FF), (0x3130, 0x318F), (0xA960, 0xA97F), (0xD7B0, 0xD7FF), (0x3000, 0x303F)],
    "Thai": [(0xE01, 0xE3A), (0xE3F, 0xE5B)], "Arabic": [(0x600, 0x61B), (0x61E, 0x6FF), (0x700, 0x77F)], "Devanagari": [(0x900, 0x97F), (0xA8E0, 0xA8FF)],
}
RANGES["CJK"] = RANGES["Chinese"] + RANGES["Japanese"] + RANGES["Korean"]
KIND = {
    "alphas": str.isalpha, "nums": str.isdigit, "printables": lambda c: not c.isspace(), "alphanums": lambda c: c.isalpha() or c.isdigit(),
}
members = {}


def decode_unicode(t):
    name, kind = t.pick(SETS), t.pick(list(KIND))
    chars = ""
    for _ in range(t.between(1, 6)):
        lo, hi = t.pick(RANGES[name] if t.chance(3, 4) else RANGES[t.pick(SETS)])
        c = t.pick([lo, hi, lo - 1, hi + 1, lo + t.n(hi - lo + 1)])
        chars += chr(c)
    return {"set": name, "kind": kind, "s": chars, "min": t.n(3)}


def check_unicode(case, ctx):
    name, kind, s = case["set"], case["kind"], case["s"]
    chars = getattr(getattr(parsing_unicode, name), kind)
    key = (name, kind)
    if key not in members:
        members[key] = set(chars)
        if len(members[key]) != len(chars):
            raise Violation(f"parsing_unicode.{name}.{kind} has characters twice")

    def belongs(c):
        return any(lo <= ord(c) <= hi for lo, hi in RANGES[name]) and KIND[kind](c)

    for c in s:
        expect((c in members[key]) == belongs(c), lambda: f"{c!r} (U+{ord(c):04X}) in parsing_unicode.{name}.{kind} is {c in members[key]}")
    if len(chars) > 3000 or not chars:
        return
    e = Word(chars, min=case["min"] + 1) if case["min"] else Word(chars)
    n = 0
    while n < len(s) and belongs(s[n]):
        n += 1
    o = no_crash(call(e.parse, s), f"Word({name}.{kind}) on {s!r}")
    if not s[:1].isspace():
        expect(o.ok == (n > case["min"]), lambda: f"Word({name}.{kind}) of at least {case['min'] + 1} on {s!r}: {o!r}")
        if o.ok:
            expect(o.value[0] == s[:n], lambda: f"Word({name}.{kind}) on {s!r}: {o!r}")
            ctx.hit("unicode")


SUBS = [
    Sub("column", cases(decode_column, 60), check_column, 3000, 60000),
    Sub("tokens", cases(decode_tokens, 60), check_tokens, 2400, 50000),
    Sub("condition", cases(decode_condition, 50), check_condition, 3000, 60000),
    Sub("comma", cases(decode_comma, 60), check_comma, 2000, 40000),
    Sub("strip", cases(decode_strip, 120), check_strip, 1600, 30000),
    Sub("unicode", cases(decode_unicode, 30), check_unicode, 1600, 20000),
]
_ = (Char, Suppress, makeHTMLTags)
