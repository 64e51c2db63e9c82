"""Drive one property: generate cases on all cores, judge them, shrink, report.

A property module (pbt/props/cXX.py) defines
    ID        property id
    RULE      how cases are made and what makes one non-trivial
    SUBS      list of Sub(name, strategy, check, quick, thorough)
A case is a JSON value drawn by a Hypothesis strategy; `check(case, ctx)` builds
whatever it needs from the case, exercises /repo, and raises Violation.
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import sys
import time
import traceback

from pbt import env

WORKERS = 8
STEP_LIMIT = 6_000_000  # default per-case budget of executed mo_parsing calls+loops; typical cases use 10^2..10^5
COSTLY_LIMIT = 1_000_000  # for modules in which more steps give no verdict
SOFT_S = {"quick": 420.0, "thorough": 3000.0}  # stop generating (inconclusive, not a violation)
HARD_S = {"quick": 860.0, "thorough": 7000.0}

Sub = collections.namedtuple("Sub", "name strategy check quick thorough")


def load(prop):
    return importlib.import_module(f"pbt.props.{prop.lower()}")


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def judge(mod, sub, case):
    """Run one case. Returns (violation message or None, ctx)."""
    from pbt.lib import Violation, Ctx, reset_globals

    ctx = Ctx()
    reset_globals()
    env.reset_steps(getattr(mod, "STEP_LIMIT", COSTLY_LIMIT if getattr(mod, "COSTLY", False) else STEP_LIMIT))
    try:
        sub.check(case, ctx)
        return None, ctx
    except Violation as v:
        return str(v), ctx
    except env.StepLimit:
        if getattr(mod, "COSTLY", False):
            # recursive grammars can need exponentially many steps: no verdict (C25 decides termination)
            ctx.label("too costly")
            return None, ctx
        return (
            f"no answer after {getattr(mod, 'STEP_LIMIT', STEP_LIMIT)} executed steps of mo_parsing code: does not terminate",
            ctx,
        )
    except RecursionError as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(env._prefix) for f in tb):
            return "RecursionError inside mo_parsing", ctx
        raise
    except (env.HarnessError, AssertionError):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(env._prefix) for f in tb):
            at = [f for f in tb if f.filename.startswith(env._prefix)][-1]
            text = " ".join(str(e).split())[:300]
            return f"mo_parsing raised {type(e).__name__} (in {at.name}): {text}", ctx
        raise
    finally:
        env.reset_steps(1 << 62)
        reset_globals()


class _Fail(Exception):
    pass


def run_sub(mod, sub, n, seed, deadline, stats):
    """One Hypothesis campaign. Returns None or {'case':..., 'message':...}."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = 45
    last = {}
    flags = {"over": False, "failed": False}

    excluded = getattr(mod, "EXCLUDE", None)

    @hypothesis.seed(seed)
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
        verbosity=hypothesis.Verbosity.quiet,
    )
    @given(sub.strategy())
    def campaign(case):
        if flags["over"]:
            return
        if time.monotonic() > deadline and not flags["failed"]:
            flags["over"] = True
            stats["inconclusive"] += 1
            return
        if excluded is not None and excluded(sub.name, case):
            stats["excluded"] += 1
            return
        message, ctx = judge(mod, sub, case)
        if not flags["failed"]:
            stats["evaluations"] += 1
            if ctx.nontrivial:
                key = hashlib.sha256((sub.name + json.dumps(case, sort_keys=True)).encode()).digest()[:8]
                if key not in stats["keys"]:
                    stats["keys"].add(key)
                    if len(stats["samples"]) < 2:
                        stats["samples"].append({"check": sub.name, "case": case})
            for label in ctx.labels:
                stats["labels"][f"{sub.name}:{label}"] += 1
        if message is not None:
            flags["failed"] = True
            last["case"] = case
            last["message"] = message
            raise _Fail()

    try:
        campaign()
    except _Fail:
        return dict(last, sub=sub.name)
    except BaseException as e:
        if last and not isinstance(e, (KeyboardInterrupt, env.HarnessError)):
            # e.g. Hypothesis' Flaky: the failure depends on the history of the process
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            return dict(last, sub=sub.name, note=f"{type(e).__name__} while shrinking")
        raise
    return None


def worker(conn, prop, tier, seed, index, only=None, scale=1.0, stop_at=None):
    try:
        env.install_step_counter()
        mod = load(prop)
        stats = dict(
            evaluations=0, excluded=0, inconclusive=0, keys=set(), samples=[], labels=collections.Counter()
        )
        found = None
        deadline = time.monotonic() + SOFT_S[tier]
        for sub in mod.SUBS:
            if only and sub.name != only:
                continue
            n = int(max(1, (sub.quick if tier == "quick" else sub.thorough) * scale // WORKERS))
            stats["samples_before"] = len(stats["samples"])
            saved = stats["samples"]
            stats["samples"] = []
            found = run_sub(mod, sub, n, seed_of(seed, prop, sub.name, index), deadline, stats)
            stats["samples"] = saved + stats["samples"]
            if found:
                found["worker"] = index
                break
        conn.send(("done", stats, found))
    except BaseException:
        conn.send(("error", traceback.format_exc(), None))
    finally:
        conn.close()
        os._exit(0)


def campaign(prop, tier, seed, only=None, scale=1.0, jobs=WORKERS):
    """Run all workers, merge what they saw."""
    ctxm = multiprocessing.get_context("fork")
    procs = []
    start = time.monotonic()
    results = [None] * WORKERS
    pending = list(range(WORKERS))
    running = {}
    hard = start + HARD_S[tier]
    while pending or running:
        while pending and len(running) < jobs:
            i = pending.pop(0)
            a, b = ctxm.Pipe(duplex=False)
            p = ctxm.Process(target=worker, args=(b, prop, tier, seed, i, only, scale))
            p.start()
            b.close()
            running[i] = (p, a)
        ready = multiprocessing.connection.wait([a for _, a in running.values()], timeout=1.0)
        for i, (p, a) in list(running.items()):
            if a in ready:
                try:
                    results[i] = a.recv()
                except EOFError:
                    results[i] = ("error", f"worker {i} died (exit {p.exitcode})", None)
                p.join()
                del running[i]
        if time.monotonic() > hard:
            for p, a in running.values():
                p.kill()
            for i in running:
                results[i] = ("timeout", f"worker {i} gave no answer in {HARD_S[tier]} s", None)
            break
        if any(r and r[0] == "done" and r[2] for r in results) and not pending:
            # someone found a violation: give the others a moment, then stop
            t = time.monotonic() + 20
            while running and time.monotonic() < t:
                ready = multiprocessing.connection.wait([a for _, a in running.values()], timeout=1.0)
                for i, (p, a) in list(running.items()):
                    if a in ready:
                        try:
                            results[i] = a.recv()
                        except EOFError:
                            results[i] = ("error", f"worker {i} died", None)
                        p.join()
                        del running[i]
            for p, a in running.values():
                p.kill()
            running = {}
            break
    return [r for r in results if r is not None]


def known_entries(prop):
    path = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    return [e for e in data["findings"] if e["property"] == prop]


def evidence(mod, prop, tier, seed, results, wall, violations, extra):
    stats = [r[1] for r in results if r[0] == "done"]
    keys = set()
    labels = collections.Counter()
    samples = []
    for s in stats:
        keys |= s["keys"]
        labels.update(s["labels"])
        for x in s["samples"]:
            samples.append(x)
    seen = collections.Counter()
    picked = []
    for x in samples:
        if seen[x["check"]] < 2 and len(json.dumps(x)) < 3000:
            seen[x["check"]] += 1
            picked.append(x)
    doc = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in stats) + extra.get("regressions", 0),
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": picked,
            "classes": dict(sorted(labels.items())),
            "excluded_by_construction": sum(s["excluded"] for s in stats),
            "campaigns_cut_by_time": sum(s["inconclusive"] for s in stats),
            **extra,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    folder = os.path.join(env.VERIF, "evidence")
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(doc, f, indent=1, ensure_ascii=True)


def save_replay(prop, found, seed, tier):
    folder = os.path.join(env.VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    body = {"property": prop, "seed": seed, "tier": tier, **found}
    digest = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(folder, f"{prop}-{digest}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(body, f, indent=1, ensure_ascii=True)
    return path


def run_saved(mod, sub_name, case):
    sub = next(s for s in mod.SUBS if s.name == sub_name)
    return judge(mod, sub, case)[0]


def replay(prop, path):
    env.install_step_counter()
    mod = load(prop)
    with open(path, encoding="utf-8") as f:
        body = json.load(f)
    message = run_saved(mod, body["sub"], body["case"])
    print("case:", json.dumps(body["case"], ensure_ascii=True))
    print("recorded:", body["message"])
    if message is None:
        print("the property holds for this case")
        return 0
    print("now:", message)
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def main(argv=None):
    p = argparse.ArgumentParser()
    p.add_argument("property", nargs="?", default="")
    p.add_argument("--selftest", action="store_true")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    p.add_argument("--replay")
    p.add_argument("--only")
    p.add_argument("--scale", type=float, default=1.0)
    p.add_argument("--stats", action="store_true")
    args = p.parse_args(argv)
    prop = args.property.upper()

    if args.selftest:
        import pbt.lib  # noqa: F401  (the library, and Hypothesis, can be loaded)
        import hypothesis  # noqa: F401

        print("ready")
        return 0
    if args.replay:
        return replay(prop, args.replay)

    start = time.monotonic()
    try:
        mod = load(prop)
    except Exception:
        traceback.print_exc()
        print(f"ERROR: can not load the check of {prop}", file=sys.stderr)
        return 2

    known = 0
    regress = 0
    found = None
    # 1. saved regressions and known findings, judged directly (no generation)
    import multiprocessing as mp

    entries = known_entries(prop)
    saved = list(getattr(mod, "REGRESSIONS", []))
    if entries or saved:
        with_ctx = mp.get_context("fork")
        a, b = with_ctx.Pipe(duplex=False)

        def direct():
            try:
                env.install_step_counter()
                out = [("known", e, run_saved(mod, e["sub"], e["case"])) for e in entries]
                out += [("saved", {"sub": s, "case": c}, run_saved(mod, s, c)) for s, c in saved]
                b.send(("done", out))
            except BaseException:
                b.send(("error", traceback.format_exc()))
            finally:
                os._exit(0)

        proc = with_ctx.Process(target=direct)
        proc.start()
        b.close()
        if not a.poll(300):
            proc.kill()
            print("ERROR: saved cases gave no answer", file=sys.stderr)
            return 2
        try:
            kind, out = a.recv()
        except EOFError:
            kind, out = "error", "worker died"
        proc.join()
        if kind == "error":
            print(out, file=sys.stderr)
            return 2
        for k, e, message in out:
            regress += 1
            if k == "known":
                if message is not None:
                    known += 1
                    print(f"KNOWN-FINDING: property={prop} {e['what']}")
            elif message is not None and found is None:
                found = {"sub": e["sub"], "case": e["case"], "message": message, "note": "saved regression case"}

    # 2. the search
    results = []
    if found is None:
        results = campaign(prop, args.tier, args.seed, args.only, args.scale)
        hits = [r[2] for r in results if r[0] == "done" and r[2]]
        if hits:
            found = min(hits, key=lambda h: (len(json.dumps(h["case"])), json.dumps(h["case"])))
    wall = time.monotonic() - start
    errors = [r[1] for r in results if r[0] in ("error", "timeout")]
    evidence(
        mod, prop, args.tier, args.seed, results, wall, 1 if found else 0,
        {"regressions": regress, "known_findings": known},
    )
    if args.stats:
        with open(os.path.join(env.VERIF, "evidence", f"{prop}.json")) as f:
            c = json.load(f)["coverage"]
        print(json.dumps({k: v for k, v in c.items() if k not in ("samples", "rule")}, indent=1))
    if found:
        path = save_replay(prop, found, args.seed, args.tier)
        print("message:", found["message"][:2000].encode("ascii", "backslashreplace").decode())
        print("case:", json.dumps(found["case"], ensure_ascii=True)[:3000])
        if found.get("note"):
            print("note:", found["note"])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print(errors[0][-1500:], file=sys.stderr)
        print(f"ERROR: {len(errors)} workers of {prop} gave no verdict", file=sys.stderr)
        return 2
    total = sum(r[1]["evaluations"] for r in results)
    distinct = len(set().union(*[r[1]["keys"] for r in results])) if results else 0
    print(f"OK property={prop} tier={args.tier} seed={args.seed} evaluations={total} nontrivial={distinct} wall={wall:.1f}s")
    return 0
