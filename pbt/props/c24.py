"""C24: debugging does not change what is parsed."""
import contextlib
import io

from mo_parsing import And, ParseResults, whitespaces
from mo_parsing.debug import Debugger

from pbt import gram
from pbt.gen import cases, inputs
from pbt.lib import Violation, call, excerpt, expect, plain
from pbt.props import c11, c13
from pbt.runner import Sub

ID = "C24"
RULE = (
    "Cases: a random grammar (as C11: any node may have parse actions or conditions, some rejecting, raising, or giving a shorter match; also with callDuringTry in parts that are only tried) or a "
    "fixed helper grammar, 3 inputs, and a program of parse, parse_all, scan, search, transform, split and matches calls, iterators "
    "advanced step by step, and blocks inside Debugger contexts (silent or printing, nested, left normally or by an exception, entered in "
    "a parse action). Every outcome and the log of the calls of actions and fail actions is compared to a new copy of the grammar "
    "outside any debugger, and the innermost debugger must count the attempts. Non-trivial: at least two calls inside a debugger that called an action or failed, and one after leaving."
)
COSTLY = True
ASSUMPTIONS = ["of exceptions that are no ParseException only the type is compared", "printed text is not judged, only that there is none where none is asked for"]


class Out(Exception):
    pass


class Builder(c11.Builder):
    """like c11, but every function notes its arguments in log"""

    def __init__(self, rules, log):
        c11.Builder.__init__(self, rules)
        self.log = log

    def _build(self, g):
        if g[0] != "act":
            return gram.Builder._build(self, g)
        e = self.build(g[1])
        if not self.direct(g[1]):
            e = And([e], whitespaces.CURRENT)
        trying = {"callDuringTry": True} if "try" in g[6:] and g[1][0] != "ref" else {}
        for n, f in enumerate(g[2]):
            fn = self.function(g, n, f)
            if g[3] == "cond":
                e = e.add_condition(fn, **trying)
            elif trying:
                e = e.add_parse_action(fn, **trying)
            else:
                e = e / fn
        if "fail" in g[6:]:
            e.setFailAction(lambda expr, loc, string, cause: self.log.append(["failed", loc, len(string), excerpt(cause)]))
        return e(g[5]) if g[5] else e

    def function(self, g, n, f):
        kind = f[0]

        def fn(tokens, loc, string):
            items = plain(tokens)
            empty = string[tokens.start : tokens.end].strip() == ""
            self.log.append([kind, n, items, loc, len(string), tokens.start, tokens.end])
            if kind == "first":
                for x in tokens:
                    if isinstance(x, ParseResults):
                        return x
                return None
            if kind == "debug":
                with Debugger(silent=bool(f[2] % 2)):
                    return inner(string)
            if kind == "plain":
                return inner(string)
            cond = kind in c11.CONDITIONS
            try:
                v = c11.value_of(kind, items, empty, loc, len(string))
            except c11.Reject:
                if cond:
                    return False
                raise c11.ParseException(tokens.type, tokens.start, string, "rejected")
            if cond:
                return True
            return v

        return fn


def inner(string):
    """what an action that parses gives"""
    o = call(INNER.parse, string)
    return [str(plain(o.value))] if o.ok else ["none"]


INNER = None


class Gen(c11.Gen):
    def expr(self, depth, free):
        g = c11.Gen.expr(self, depth, free)
        if g[0] == "act":
            name = g[5] if len(g) > 5 else None
            g = g[:5] + [name]
            if g[3] == "act" and self.t.n(4) == 3:
                g[2].append([self.t.pick(["first", "debug", "plain"]), 3, self.t.n(5)])
                if g[2][-1][0] == "first" and self.t.n(2):
                    # this gives the group, which ends before the match
                    g[1] = ["and", [["group", g[1]], ["opt", ["char", "abc"], None]], 0]
            if self.t.n(4) == 3:
                g.append("fail")
            if self.t.n(4) == 3:
                g.append("try")
                k = self.t.n(4)
                if k == 3:
                    return ["and", [["skipto", g, self.t.n(2) == 1], ["opt", ["char", "abc"], None]], 0]
                if k == 2:
                    return ["and", [["ahead", g], ["char", "abc"]], 0]
                if k == 1:
                    return ["and", [["not", g], ["char", "abc"]], 0]
        return g


HOW = ["parse", "parse", "parse", "all", "search", "matches", "transform", "split", "scan"]


def block(t, depth, budget):
    steps = []
    for _ in range(t.between(1, 4)):
        if budget[0] <= 0:
            break
        budget[0] -= 1
        k = t.n(10)
        if k < 4 and depth < 3:
            steps.append(["with", t.n(2), t.n(3) == 2, block(t, depth + 1, budget)])
        elif k == 4:
            steps.append(["start", t.pick(["scan", "split"]), t.n(3)])
        elif k == 5:
            steps.append(["next", t.n(3), t.between(1, 3)])
        else:
            steps.append([t.pick(HOW), t.n(3)])
    return steps


def decode(t):
    if t.n(5) == 4:
        k = t.n(len(c13.FIXED))
        spec = {"fixed": k}
        s = [t.pick(c13.FIXED[k][1]) for _ in range(3)]
    else:
        gg = Gen(t, rules=t.pick([0, 0, 1]), max_nodes=14, names=t.n(3) == 2)
        gg.active = 1
        g = gg.grammar()
        spec = {"g": g}
        s = inputs(t, g, 3, 3)
    steps = [["with", t.n(2), t.n(3) == 2, block(t, 1, [8])]] + block(t, 0, [5]) + [["parse", t.n(3)]]
    return dict(spec, s=s, steps=steps)


def make(case, log):
    if "fixed" in case:
        return c13.FIXED[case["fixed"]][0]()
    return Builder(case["g"]["rules"], log).start(case["g"]["start"])


def check(case, ctx):
    global INNER
    if INNER is None:
        from mo_parsing import Char, OneOrMore

        INNER = OneOrMore(Char("ab"))
    log = []
    live = make(case, log)
    fresh = {}
    attempts = {}
    inputs_ = case["s"]
    iters = []
    seen = {"inside": 0, "after": 0}
    printing = io.StringIO()
    debuggers = []
    closed = []

    def want(how, i):
        s = inputs_[i % len(inputs_)]
        if (how, s) not in fresh:
            log2 = []
            fresh[how, s] = (c13.run(make(case, log2), how, s), log2)
            e = make(case, [])
            with Debugger(silent=True) as d:
                c13.run(e, how, s)
            attempts[how, s] = d.parse_count
        return fresh[how, s]

    def text():
        return "inside " + "+".join("silent" if d.silent else "printing" for d in debuggers) if debuggers else "after leaving all debuggers"

    def run(k, i, depth):
        w, calls = want(k, i)
        s = inputs_[i % len(inputs_)]
        del log[:]
        count = debuggers[-1].parse_count if debuggers else 0
        before = len(printing.getvalue())
        got = c13.run(live, k, s)
        if got != w:
            raise Violation(f"{text()}, {k} of {s!r} gives {got}, but outside {w}")
        if log != calls:
            raise Violation(f"{text()}, {k} of {s!r} calls {log}, but outside {calls}")
        if debuggers and attempts[k, s] and debuggers[-1].parse_count == count:
            raise Violation(f"{text()}, {k} of {s!r} is not seen by the debugger: its parse_count stays {count}")
        loud = any(not d.silent for d in debuggers) or any(f[0] == "debug" for f in functions(case))
        if len(printing.getvalue()) > before and not loud:
            raise Violation(f"{text()}, {k} of {s!r} prints {printing.getvalue()[before:][:300]!r}")
        if depth:
            seen["inside"] += bool(calls) or got[0] != "ok" or "fixed" in case
        elif closed:
            seen["after"] += 1

    def advance(it, n):
        how, i = it[1], it[2]
        w = want(how, i)[0]
        for _ in range(n):
            try:
                x = next(it[0])
            except StopIteration:
                expect(w == ["ok", it[3]], lambda: f"{text()}, {how} of {inputs_[i % len(inputs_)]!r} ends with {it[3]}, but outside {w}")
                iters.remove(it)
                return
            except Exception as c:
                if w[0] == "ok":
                    raise Violation(f"{text()}, {how} of {inputs_[i % len(inputs_)]!r} raised {type(c).__name__}: {excerpt(c)}, but outside {w}")
                iters.remove(it)
                return
            it[3].append(x if how == "split" else [c13.result(x[0]), x[1], x[2]])
            if w[0] == "ok":
                expect(w[1][: len(it[3])] == it[3], lambda: f"{text()}, {how} of {inputs_[i % len(inputs_)]!r} goes {it[3]}, but outside {w[1]}")

    def go(steps, depth):
        for step in steps:
            k = step[0]
            if k == "with":
                d = Debugger(silent=bool(step[1]))
                out = None
                try:
                    with d:
                        debuggers.append(d)
                        try:
                            go(step[3], depth + 1)
                            if step[2]:
                                raise Out()
                        finally:
                            debuggers.pop()
                except Out as e:
                    out = e
                expect((out is not None) == step[2], "the exception raised in a Debugger context is lost")
                closed.append(d)
            elif k == "start":
                s = inputs_[step[2] % len(inputs_)]
                o = call(lambda: iter(live.scan_string(s) if step[1] == "scan" else live.split(s)))
                if o.ok:
                    iters.append([o.value, step[1], step[2], []])
            elif k == "next":
                if iters:
                    advance(iters[step[1] % len(iters)], step[2])
            else:
                run(k, step[1], depth)

    def calls_of(steps):
        for step in steps:
            if step[0] == "with":
                calls_of(step[3])
            elif step[0] == "start":
                want(step[1], step[2])
            elif step[0] != "next":
                want(step[0], step[1])

    with contextlib.redirect_stdout(io.StringIO()):
        calls_of(case["steps"])  # before any debugger
    was = type(live)._parse if hasattr(type(live), "_parse") else None
    try:
        with contextlib.redirect_stdout(printing):
            go(case["steps"], 0)
    finally:
        for it in iters:
            call(it[0].close)
        if was is not None and type(live)._parse is not was:
            # do not disturb other cases
            from mo_parsing.core import ParserElement

            ParserElement._parse = was
    if seen["inside"] >= 2 and seen["after"]:
        ctx.hit("inside")


def functions(case):
    out = []

    def walk(g):
        if isinstance(g, list):
            if g and g[0] == "act":
                out.extend(g[2])
            for x in g:
                walk(x)
        elif isinstance(g, dict):
            for x in g.values():
                walk(x)

    walk(case.get("g", []))
    return out


SUBS = [Sub("debug", cases(decode, 220), check, 1800, 150000)]
