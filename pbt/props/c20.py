"""C20: literals, keywords, one_of and close matches match what they say."""
from mo_parsing import CaselessKeyword, CaselessLiteral, CloseMatch, Group, Keyword, Literal, MatchFirst
from mo_parsing.infix import one_of
from mo_parsing.regex import Regex
from mo_parsing.whitespaces import Whitespace

from pbt.gen import cases
from pbt.lib import Violation, call, no_crash
from pbt.runner import Sub

ID = "C20"
RULE = (
    "Cases: a Literal, CaselessLiteral, Keyword, CaselessKeyword (own, default or context's identifier characters), one_of (2-8 choices that "
    "are prefixes of each other, as list or string, caseless or keywords) or CloseMatch (0-3 mismatches) for texts with regex specials, "
    "non-ASCII and case-irregular characters; one string made of the texts, altered at some characters. The token is tried at each position of "
    "the string (alone, copied, named, grouped, in a choice) in a context without whitespace. Non-trivial: a string where it matches "
    "somewhere and not elsewhere."
)
ASSUMPTIONS = [
    "characters of which Unicode's lower, upper and folded case disagree may or may not be equal; texts with such a difference are not judged",
    "choices of one_of are not empty and without whitespace when given as one string",
]

CH = "aabbABcC1_-.*+\\[](|)^$é É{}?ßſKσςΣǅıİ\n\t/"
IDENTS = [None, None, "ab", "abc-", "a", "", "AB", "ab\n", "^]", "\\", "é", "-+", "abcABC012_"]
DEFAULT = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_$"


def decode(t):
    kind = t.pick(["lit", "clit", "kw", "ckw", "one", "one", "one", "close"])
    alphabet = t.pick(["ab", "abAB", "ab-", CH, CH, "a.*\\", "kKſsK", "aé É"])
    n = t.between(2, 8) if kind == "one" else 1
    texts = []
    for _ in range(n):
        if texts and t.chance(2, 3):
            base = t.pick(texts)
            x = t.pick([base + t.chars(alphabet, 1, 2), base[:-1] or "a", base.swapcase(), base + "-", base])
        else:
            x = t.chars(alphabet, 1, 5)
        texts.append(x)
    case = {
        "kind": kind, "texts": texts, "caseless": kind == "one" and t.chance(1, 2), "kw": kind == "one" and t.chance(1, 3),
        "ident": t.pick(IDENTS), "context": t.pick([None, None, "ab", "b-"]), "most": t.n(4), "style": t.n(4),
    }
    s = ""
    for _ in range(t.between(1, 4)):
        x = list(t.pick(texts))
        for _ in range(t.pick([0, 0, 1, 2, 3])):
            if x:
                j = t.n(len(x))
                k = t.n(3)
                if k == 0:
                    x[j] = t.pick(alphabet)
                elif k == 1:
                    x[j] = t.pick([x[j].lower(), x[j].upper()])
                elif len(x) > 1:
                    del x[j]
        s += "".join(x) + t.pick(["", " ", "-", "a", "\n", "b", "1"])
    case["text"] = s[:24]
    return case


def make(case):
    kind, x = case["kind"], case["texts"][0]
    if kind == "lit":
        return Literal(x)
    if kind == "clit":
        return CaselessLiteral(x)
    if kind == "close":
        return CloseMatch(x, case["most"]) if case["most"] != 1 else CloseMatch(x)
    if kind in ("kw", "ckw"):
        kw = {} if case["ident"] is None else {"ident_chars": case["ident"]}
        if kind == "ckw" and case["style"] % 2:
            return Keyword(x, caseless=True, **kw)
        return (Keyword if kind == "kw" else CaselessKeyword)(x, **kw)
    texts = case["texts"]
    if case["style"] == 1 and not any(c.isspace() for v in texts for c in v):
        texts = " ".join(texts)
    elif case["style"] == 2:
        texts = tuple(texts)
    kw = {}
    if case["caseless"]:
        kw["caseless"] = True
    if case["kw"]:
        kw["as_keyword"] = True
    return one_of(texts, **kw)


class Unclear(Exception):
    pass


def same(a, b):
    """Equal but for case; Unclear when that is a matter of definition."""
    if a == b:
        return True
    views = {a.lower() == b.lower(), a.upper() == b.upper(), a.casefold() == b.casefold()}
    if len(views) > 1 or len(a.lower()) != 1 or len(a.upper()) != 1:
        if True in views:
            raise Unclear()
        return False
    return views == {True}


def at(x, s, i, caseless):
    if i + len(x) > len(s):
        return False
    unclear = None
    for a, b in zip(x, s[i:]):
        if not caseless:
            if a != b:
                return False
        else:
            try:
                if not same(a, b):
                    return False
            except Unclear as e:
                unclear = e
    if unclear:
        raise unclear
    return True


def follows(case, s, j, ident, caseless):
    """An identifier character at j"""
    if j >= len(s):
        return False
    if s[j] in ident or caseless and s[j] in ident.lower() + ident.upper():
        return True
    if caseless and (s[j].lower() in ident or s[j].upper() in ident):
        raise Unclear()
    return False


def model(case, s, i):
    """(end, value, mismatches) of the match at i, or None"""
    kind = case["kind"]
    caseless = kind in ("clit", "ckw") or case["caseless"]
    keyword = kind in ("kw", "ckw") or case["kw"]
    if kind == "close":
        x = case["texts"][0]
        piece = s[i:i + len(x)]
        bad = [j for j, (a, b) in enumerate(zip(x, piece)) if a != b]
        if len(piece) < len(x) or len(bad) > case["most"]:
            return None
        return i + len(x), piece, bad
    ident = case["ident"] if kind != "one" else None
    if ident is None:
        ident = case["context"] or DEFAULT
    best = None
    for x in case["texts"]:
        if not at(x, s, i, caseless):
            continue
        j = i + len(x)
        if keyword and follows(case, s, j, ident, caseless):
            continue
        if best is None or j > best[0]:
            best = j, x, None
    return best


def mismatches(v):
    if isinstance(v, int):
        return [v]
    return list(v)


def check(case, ctx):
    s = case["text"]
    with Whitespace("") as w:
        if case["context"]:
            w.set_keyword_chars(case["context"])
        e = make(case)
        variants = [("alone", e), ("copied", e.copy()), ("named", make(case)("n")), ("grouped", Group(e)),
                    ("in a choice", MatchFirst([Literal("\ue123\ue124"), e, Literal("\ue123")]))]
        ps = {k: [(what, (v if k == 0 else Regex("(?s).{%d}" % k) + v).finalize()) for what, v in variants] for k in range(len(s) + 1)}
    found = missed = 0
    for k in ps:
        try:
            m = model(case, s, k)
        except Unclear:
            continue
        for what, p in ps[k]:
            o = no_crash(call(p.parse, s), f"{what} at {k} of {s!r}")
            if m is None:
                if o.ok:
                    raise Violation(f"{what}, it should not match at {k} of {s!r}, but gives {o!r}")
                continue
            end, value, bad = m
            if not o.ok:
                raise Violation(f"{what}, it should match {s[k:end]!r} at {k} of {s!r}, but {o!r}")
            got = o.value.as_list()
            want = ([s[:k]] if k else []) + [[value] if what == "grouped" else value]
            if what == "named" and not k:
                want = [want]
            if case["caseless"] and k + len(value) == end:
                # choices that are equal but for case: either of them
                got, want = [str(v).lower() for v in got], [str(v).lower() for v in want]
            if got != want or o.value.end != end:
                raise Violation(f"{what}, it should match {s[k:end]!r} at {k} of {s!r}, but gives {o.value.as_list()!r}, to {o.value.end}")
            if bad is not None:
                r = o.value["n"] if what == "named" else o.value[-1] if what == "grouped" else o.value
                if not isinstance(r, str) and what != "named":
                    if mismatches(r["mismatches"]) != bad or r["original"] != case["texts"][0]:
                        raise Violation(
                            f"{what}, {s[k:end]!r} differs from {case['texts'][0]!r} at {bad!r}, but {r['mismatches']!r} are reported"
                        )
        found += m is not None
        missed += m is None
    if found and missed > 1:
        ctx.hit(case["kind"] + "-caseless" * case["caseless"] + "-keyword" * case["kw"])


SUBS = [Sub("token", cases(decode, 70), check, 2000, 250000)]
