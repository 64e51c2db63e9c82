"""C06: whole-input parsing agrees with prefix parsing, and all entry points with each other."""
import io
import os
import re
import tempfile

from mo_parsing import Group, StringEnd
from mo_parsing.results import ParseResults

from pbt import gram
from pbt.gen import GrammarGen, Sampler, cases, mutate
from pbt.lib import Violation, call, expect, no_crash, show
from pbt.scopes import IGNORES, WHITES, context, ignores
from pbt.runner import Sub

ID = "C06"
RULE = (
    "Cases: a random grammar (as C01, also with names) built in a random whitespace context (characters and ignored "
    "expressions), and 3-6 inputs: samples and mutations followed by nothing, whitespace, ignored text, line ends, other text or a mix. "
    "All entry points (parse, parse_string, finalize().parse, matches, parse_file by name and by file object, + StringEnd) "
    "are compared to parse of the prefix. Non-trivial: the prefix is accepted and something is left over."
)
COSTLY = True
ASSUMPTIONS = ["parse of the prefix is taken as given (C01 checks it)", "line ends at the very end count as whitespace for StringEnd"]


def decode(t):
    gg = GrammarGen(t, rules=t.pick([0, 0, 1]), names=t.n(2) == 1, depth=3)
    g = gg.grammar()
    if t.n(3) == 2:
        g["start"] = gg.terminal()
    white = t.pick([gram.WS, gram.WS] + WHITES)
    ign = ignores(t)
    spaces = ["", " "] if gram.WS == white else ["", t.pick(white) if white else ""]
    strings = []
    for _ in range(t.between(3, 6)):
        s = Sampler(t, g, spaces).sample(g["start"])[:40]
        if t.n(5) == 4:
            s = mutate(t, s)
        for _ in range(t.pick([1, 0, 2, 3])):
            k = t.n(6)
            if k == 0 and white:
                s += t.pick(white)
            elif k == 1 and ign:
                s += t.pick(IGNORES[t.pick(ign)][2])
            elif k == 2:
                s += t.pick(["\n", "\r\n", "\n\n", "\r"])
            elif k == 3:
                s += t.pick(" .#~\tx")
            elif k == 4:
                s += t.pick("abc\0é")
        if s not in strings:
            strings.append(s)
    return {"g": g, "white": white, "ignore": ign, "s": strings, "late": t.n(2) == 1}


def view(r):
    if not isinstance(r, ParseResults):
        raise Violation(f"not a ParseResults but {type(r).__name__}")
    return {
        "list": r.as_list(), "end": r.end,
        "names": sorted((k, show(v.as_list() if isinstance(v, ParseResults) else v)) for k, v in r.items() if k),
    }


def same(what, got, want):
    no_crash(got, what)
    if got.ok != want.ok:
        raise Violation(f"{what} gives {got!r}, where {want!r} is expected")
    if got.ok:
        a, b = view(got.value), view(want.value)
        expect(a == b, lambda: f"{what} gives {a}, not {b}")


FOLDER = None


def check(case, ctx):
    white, ign = case["white"], case["ignore"]
    end = re.compile(
        "(?:[%s]|%s)*(?:\r?\n)*" % (re.escape(white) or "\uffff", "|".join(IGNORES[i][0] for i in ign) or "\uffff"), re.DOTALL
    )
    with context(white, ign):
        e = gram.build(case["g"])
        grouped = Group(e)
        whole = Group(e) + StringEnd()
        if not case["late"]:
            run(e, grouped, whole, end, case["s"], ctx)
        # what has whitespace rules of its own can be used after leaving the context
        closed = (Group(e) + gram.Empty())
    if case["late"]:
        run(closed, closed, whole, end, case["s"], ctx)


def run(e, grouped, whole, end, strings, ctx):
    parser = e.finalize()
    for s in strings:
        r = no_crash(call(e.parse, s), f"parse of {s!r}")
        full = no_crash(call(e.parse, s, parse_all=True), f"parse_all of {s!r}")
        if r.ok:
            rest = s[r.value.end:]
            complete = end.fullmatch(rest) is not None
            expect(
                full.ok == complete,
                lambda: f"{s!r} matches up to {r.value.end}, leaving {rest!r}, but parse with parse_all gives {full!r}",
            )
            if full.ok:
                same(f"parse with parse_all of {s!r}", full, r)
            ctx.label("complete" if complete else "left over")
            if rest:
                ctx.hit("rest skipped" if complete else "rest refused")
        else:
            expect(not full.ok, lambda: f"{s!r} has no matching prefix, but parse_all gives {full!r}")
            ctx.label("rejected")
        same(f"parse_string of {s!r}", call(e.parse_string, s), r)
        same(f"parse_string(parse_all) of {s!r}", call(e.parse_string, s, True), full)
        same(f"finalize().parse of {s!r}", call(parser.parse, s), r)
        same(f"finalize().parse(parse_all) of {s!r}", call(parser.parse, s, True), full)
        same(f"finalize().parse_string of {s!r}", call(parser.parse_string, s, parse_all=True), full)
        same(f"parse_file of {s!r}", call(e.parse_file, io.StringIO(s, newline="")), r)
        same(f"parse_file(parse_all) of {s!r}", call(e.parse_file, io.StringIO(s, newline=""), parse_all=True), full)
        for kw, o in (({}, full), ({"parse_all": True}, full), ({"parse_all": False}, r)):
            m = no_crash(call(e.matches, s, **kw), f"matches of {s!r}")
            expect(m.ok and m.value is o.ok, lambda: f"matches({s!r}, {kw}) is {m!r}, but parsing gives {o!r}")
        w = no_crash(call(whole.parse, s), f"StringEnd on {s!r}")
        expect(w.ok == full.ok, lambda: f"with StringEnd {s!r} gives {w!r}, with parse_all {full!r}")
        if w.ok:
            a = w.value.as_list()
            b = call(grouped.parse, s, parse_all=True)
            if b.ok:
                b = b.value.as_list()
                expect(a == [b] or a == b, lambda: f"with StringEnd {s!r} gives {a}, without {b}")
    s = strings[0]
    if s.isascii() and "\r" not in s:
        fd, path = tempfile.mkstemp(prefix="c06.")
        try:
            with os.fdopen(fd, "w", newline="") as f:
                f.write(s)
            same(f"parse_file of a file with {s!r}", call(e.parse_file, path), call(e.parse, s))
            same(f"parse_file(parse_all) of a file with {s!r}", call(e.parse_file, path, True), call(e.parse, s, True))
        finally:
            os.unlink(path)


SUBS = [Sub("entry", cases(decode, 110), check, 8000, 300000)]
