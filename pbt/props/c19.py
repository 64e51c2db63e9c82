"""C19: character-class tokens match what their sets and bounds say."""
from mo_parsing import AnyChar, Char, CharsNotIn, Group, Literal, Many, MatchFirst, White, Word
from mo_parsing.regex import Regex
from mo_parsing.whitespaces import Whitespace

from pbt.gen import cases
from pbt.lib import Violation, call, no_crash
from pbt.runner import Sub

ID = "C19"
RULE = (
    "Cases: a Word (first and following sets, exclusions, min/max/exact, keyword), Char, CharsNotIn, White or AnyChar over sets of 1-12 "
    "characters out of the printable ones, control characters, regex specials, runs of neighbouring code points, non-ASCII and astral "
    "ones; one string made of the members, their neighbours and others. The token is tried at each position of the string (alone, copied, "
    "named, repeated, in a choice) in a context without whitespace. Non-trivial: a string where it matches somewhere and not elsewhere."
)
ASSUMPTIONS = [
    "keyword tokens have sets of identifier characters; the boundary is where an identifier character meets another character or an end",
    "a maximum limits the match, it does not forbid more characters after it",
]

SPECIAL = "\\]^-[.*+?$|(){}\"'/#&~ \t\n\r\x00\x0b\x0c\x7f\x1c\x85\xa0"
OTHER = "éÉßµσςıİſK𝒳😀\u2028\u3000\uffff\U0010ffffÿĀ"
WORDS = "abcdezABCZ_0129éσ"


def charset(t, word=False, n=None):
    if word:
        return "".join(t.pick(WORDS) for _ in range(n or t.between(1, 6)))
    out = ""
    for _ in range(n or t.pick([1, 1, 2, 3, 5])):
        k = t.n(6)
        if k <= 1:
            out += chr(33 + t.n(94))
        elif k <= 2:
            out += t.pick(SPECIAL)
        elif k == 3:
            out += t.pick(OTHER)
        else:  # neighbours
            c = t.pick(["a", "+", "X", "\\", "-", "^", "[", "é", "~", "\x00", "0", "\ud7f0", "\U0001f600"])
            out += "".join(chr(ord(c) + j) for j in range(t.between(1, 5)))
    return "".join(t.shuffled(out)) if t.chance(1, 2) else out


def decode(t):
    kind = t.pick(["word", "word", "word", "char", "notin", "white", "any"])
    case = {"kind": kind, "kw": False, "body": None, "exclude": "", "min": 1, "max": None, "set": ""}
    if kind in ("word", "char"):
        case["kw"] = t.chance(1, 5)
        case["set"] = charset(t, case["kw"])
        if kind == "word" and t.chance(1, 2):
            case["body"] = charset(t, case["kw"])
        if t.chance(1, 3):
            case["exclude"] = charset(t, n=t.between(1, 2)) if t.chance(1, 2) else t.pick(case["set"])
            if not case["kw"] and t.chance(1, 4):
                case["set"] = ""
                case["body"] = None
    elif kind == "notin":
        case["set"] = charset(t)
        if t.chance(1, 20):
            case["set"] = ""
    elif kind == "white":
        case["set"] = "".join(t.pick(" \t\n\r\x0b\x0c\u00a0\u2000\u3000") for _ in range(t.between(1, 4)))
    if kind in ("word", "notin", "white"):
        case["min"] = t.pick([1, 1, 1, 2, 3])
        case["max"] = t.pick([None, None, 0, 1, 2, 4])
        if case["max"] is not None:
            case["max"] += case["min"]
        if t.chance(1, 5):
            case["max"] = case["min"]
    near = set()
    pool = case["set"] + (case["body"] or "") + case["exclude"]
    for c in pool:
        for d in (-1, 1):
            if 0 <= ord(c) + d <= 0x10FFFF:
                near.add(chr(ord(c) + d))
    near = sorted(near) or ["a"]
    pool = pool or "ab"
    text = ""
    for _ in range(t.between(1, 14)):
        k = t.n(8)
        text += t.pick(pool) if k < 4 else t.pick(near) if k == 4 else t.pick(SPECIAL) if k == 5 else t.pick(OTHER) if k == 6 else t.pick("abz_09.")
    case["text"] = text
    return case


def make(case):
    kind, cs, lo, hi = case["kind"], case["set"], case["min"], case["max"]
    if kind == "any":
        return AnyChar()
    kw = {}
    if case["exclude"]:
        kw["exclude"] = case["exclude"]
    if case["kw"]:
        kw["as_keyword"] = True
    if kind == "char":
        return Char(cs, **kw)
    if hi == lo:
        kw["exact"] = lo
    else:
        if lo != 1:
            kw["min"] = lo
        if hi is not None:
            kw["max"] = hi
    if kind == "word":
        return Word(cs, case["body"], **kw)
    return (CharsNotIn if kind == "notin" else White)(cs, **kw)


def model(case, s, i):
    """End of the match at i, or None."""
    kind, lo, hi = case["kind"], case["min"], case["max"] or 10 ** 6
    if kind == "any":
        return i + 1 if i < len(s) else None
    if kind == "char":
        lo = hi = 1
    first, body = case["set"], case["body"] if case["body"] is not None else case["set"]

    def ok(c, allowed):
        if kind == "notin":
            return c not in case["set"]
        return (c in allowed or not case["set"]) and c not in case["exclude"]

    j = i
    while j < len(s) and j - i < hi and ok(s[j], first if j == i else body):
        j += 1
    if j - i < lo:
        return None
    if case["kw"]:
        def ident(c):
            return c.isalnum() or c == "_"
        if i and ident(s[i - 1]) or j < len(s) and ident(s[j]):
            return None
    return j


def check(case, ctx):
    s = case["text"]
    with Whitespace(""):
        e = make(case)
        if (case["min"], case["max"]) != (1, None) and case["kind"] != "char":
            many = None
        else:
            many = Many(make(case), min_match=1, max_match=3)
        variants = [("alone", e), ("copied", e.copy()), ("named", make(case)("n")), ("grouped", Group(e)),
                    ("in a choice", MatchFirst([Literal("\ue123\ue124"), e, Literal("\ue123")]))]
        at = {}
        for k in range(len(s) + 1):
            at[k] = [(what, (v if k == 0 else Regex(".{%d}" % k) + v).finalize()) for what, v in variants]
        many_at = {k: (many if k == 0 else Regex(".{%d}" % k) + many).finalize() for k in at} if many is not None and case["kind"] in ("char", "any") else {}
    found = missed = 0
    for k in range(len(s) + 1):
        end = model(case, s, k)
        for what, p in at[k]:
            o = no_crash(call(p.parse, s), f"{what} at {k} of {s!r}")
            if end is None:
                if o.ok:
                    raise Violation(f"{what}, it should not match at {k} of {s!r}, but gives {o!r}")
                continue
            if not o.ok:
                raise Violation(f"{what}, it should match {s[k:end]!r} at {k} of {s!r}, but {o!r}")
            got = o.value.as_list()
            want = ([s[:k]] if k else []) + [[s[k:end]] if what == "grouped" else s[k:end]]
            if what == "named" and not k:
                want = [want]
            if got != want or o.value.end != end:
                raise Violation(f"{what}, it should match {s[k:end]!r} at {k} of {s!r}, but gives {got!r}, to {o.value.end}")
        found += end is not None
        missed += end is None
        if k in many_at:
            ends, j = [], k
            while len(ends) < 3:
                n = model(case, s, j)
                if n is None:
                    break
                ends.append(s[j:n])
                j = n
            o = no_crash(call(many_at[k].parse, s), f"repetition at {k} of {s!r}")
            want = ([s[:k]] if k else []) + ends
            if o.ok != bool(ends) or o.ok and o.value.as_list() != want:
                raise Violation(f"repeated, it should match {want!r} at {k} of {s!r}, but gives {o!r}")
    if found and missed > 1:
        ctx.hit(case["kind"])
    if case["exclude"]:
        ctx.label("exclude")
    if case["kw"]:
        ctx.label("keyword")


SUBS = [Sub("token", cases(decode, 90), check, 3000, 300000)]
