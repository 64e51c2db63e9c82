"""C14: grammars can be used by several threads."""
import threading

from pbt import env, gram, sched
from pbt.gen import GrammarGen, cases, inputs
from pbt.lib import Violation
from pbt.props.c13 import CONTEXTS, FIXED, make, outcome, result, run
from pbt.runner import Sub

ID = "C14"
RULE = (
    "Cases: 1-3 grammars built beforehand (random ones with recursive rules and names, in different whitespace contexts; or infix, "
    "regex, list, indentation, nesting and counting helpers), used by 2-4 threads, 1-4 calls each (parse, failing parse, matches, scan, search, split, transform; scans "
    "and splits also left open), on shared expressions (also before their first use) or shared parsers. A schedule of 6-60 entries says after "
    "how many executed source lines (in one case of five: bytecode instructions) of mo_parsing the next thread goes on. Every call must give what it gives alone, and all threads must "
    "come to an end. Non-trivial: threads were switched at least 3 times, and two threads used the same grammar."
)
COSTLY = True
ASSUMPTIONS = [
    "threads are switched between source lines or bytecode instructions of mo_parsing, not inside of other modules",
    "grammars are built before the threads start (building depends on the current whitespace context of the process)",
]
RUNS = [1, 1, 2, 3, 4, 6, 9, 14, 25, 60, 150, 400]
CALLS = ["parse", "parse", "parse", "all", "matches", "search", "transform", "split", "scan", "scan", "open", "opensplit"]


def decode(t):
    gs = []
    for _ in range(t.pick([1, 1, 2, 3])):
        if t.n(4) == 3:
            k = t.n(len(FIXED))
            gs.append({"fixed": k, "s": [t.pick(FIXED[k][1]) for _ in range(3)], "ws": 0})
        else:
            gg = GrammarGen(t, rules=t.pick([0, 0, 1]), names=t.n(3) == 2, max_nodes=12)
            g = gg.grammar()
            gs.append({"g": g, "s": inputs(t, g, 3, 3), "ws": t.n(len(CONTEXTS))})
        gs[-1]["how"] = t.pick(["expr", "expr", "parser", "warm"])
    threads = []
    for _ in range(t.pick([2, 2, 3, 4])):
        threads.append([[t.pick(CALLS), t.n(len(gs)), t.n(3)] for _ in range(t.between(1, 4))])
    short = t.n(2)
    fine = t.n(5) == 4
    scale = t.between(1, 9) if fine else 1
    plan = [[t.pick(RUNS[:7] if short else RUNS) * scale, t.n(4)] for _ in range(t.between(6, 60))]
    return {"gs": gs, "threads": threads, "plan": plan, "fine": fine}


def act(e, how, s, kept):
    if how == "open":
        it = e.scan_string(s)
        kept.append(it)
        return outcome(lambda: [[result(r), a, b] for r, a, b in [next(it)]])
    if how == "opensplit":
        it = e.split(s)
        kept.append(it)
        return outcome(lambda: next(it))
    return run(e, how, s)


def check(case, ctx):
    gs = case["gs"]
    calls = []
    for th in case["threads"]:
        todo = []
        for how, g, s in th:
            if gs[g]["how"] == "parser" and how == "matches":
                how = "parse"
            todo.append((how, g, gs[g]["s"][s % len(gs[g]["s"])]))
        calls.append(todo)
    kept = []
    alone = {}
    for todo in calls:
        for how, g, s in todo:
            if (how, g, s) not in alone:
                alone[(how, g, s)] = act(make(gs[g]), how, s, kept)
    def body(todo):
        def go():
            return [act(live[g], how, s, kept) for how, g, s in todo]

        return go

    for stall in (sched.STALL_S, 3.0, 10.0):
        live = []
        for spec in gs:
            e = make(spec)
            if spec["how"] == "parser":
                e = e.finalize()
            elif spec["how"] == "warm":
                run(e, "parse", spec["s"][0])
            live.append(e)
        sch = sched.Scheduler([body(todo) for todo in calls], case["plan"], stall, case["fine"])
        finished = sch.run()
        if finished or any(isinstance(t.error, env.StepLimit) for t in sch.threads):
            break
        # on a busy machine a slow thread may look blocked, and get company: only a repeated deadlock is one
    if sch.switches:
        ctx.label("switched between instructions" if case["fine"] else "switched")
    if sch.blocked:
        ctx.label("waited for another thread")
    for t in sch.threads:
        if isinstance(t.error, env.StepLimit):
            raise t.error
    if not finished:
        raise Violation("the threads wait for each other and never come to an end")
    for t in sch.threads:
        if t.error is not None:
            raise t.error
    for i, (t, todo) in enumerate(zip(sch.threads, calls)):
        for (how, g, s), got in zip(todo, t.value):
            want = alone[(how, g, s)]
            if got != want:
                raise Violation(f"thread {i}: {how} of {s!r} with grammar {g} gives {got}, but alone it gives {want}")
    users = [{g for _, g, _ in todo} for todo in calls]
    shared = any(a & b for n, a in enumerate(users) for b in users[n + 1:])
    if shared and sch.switches >= 3:
        ctx.hit("shared")
    if any(how in ("open", "opensplit", "scan", "split") for todo in calls for how, _, _ in todo):
        ctx.label("iterators")


def setup():
    threading.stack_size(64 << 20)
    sched.install()
    sched.wrap_locks()


setup()
SUBS = [Sub("threads", cases(decode, 220), check, 1000, 40000)]
