"""Make and confirm planted bugs (tools/bugs/*.py -> seeded/<id>/): python3 tools/plant.py [ids...] [--all] [--check]

A bug file sets: prop, file, edits [(old, new)...], needs, breaks, demo (python source, exits nonzero/raises when broken).
Confirms in a scratch copy of /repo: the stable tests pass, demo passes on /repo, fails on the copy. With --check also
runs the property's quick check on the copy.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "3661a83"
ENV = dict(
    os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LC_ALL="C.UTF-8", TZ="UTC", CI="true",
)
DEMO_SH = """#!/bin/bash
# run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py" >/dev/null
"""


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env={**ENV, **env}, capture_output=True, text=True)


def stable(copy):
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "lines")
        open(f, "w").close()
        subprocess.run(
            ["timeout", "-k", "10", "300", "/opt/venv/bin/python", "-m", "vp_unittest", f, "discover", ".", "-v"],
            cwd=copy, env={**ENV, "PYTHONPATH": "/opt/vp/runner"}, capture_output=True,
        )
        out = os.path.join(d, "out.json")
        subprocess.run(["/opt/venv/bin/python", "/opt/vp/results.py", out, "lines:" + f], env=ENV, capture_output=True)
        with open(out) as g:
            got = json.load(g)
    with open("/opt/vp/BASELINE.json") as g:
        want = json.load(g)["stable"]
    passed = got["passed"]
    passed = set(passed if isinstance(passed, list) else passed)
    return sorted(set(want) - passed)


def plant(bid, check):
    b = runpy.run_path(os.path.join(HERE, "tools", "bugs", bid + ".py"))
    copy = "/tmp/plant.%s" % bid
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(["cp", "-a", os.environ.get("VERIF_REPO", "/repo"), copy], check=True)
    out = os.path.join(HERE, "seeded", bid)
    try:
        edits = b.get("edits") or []
        for e in edits:
            file, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
            path = os.path.join(copy, "mo_parsing", file)
            with open(path) as f:
                s = f.read()
            if s.count(old) != 1:
                return "edit does not apply (%d places): %r" % (s.count(old), old[:60])
            with open(path, "w") as f:
                f.write(s.replace(old, new))
        diff = sh(["git", "diff"], copy).stdout
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        base = "\n".join(
            sh(["git", "show", "%s:mo_parsing/%s" % (BASE, n)], copy).stdout
            for n in set((e[0] if len(e) == 3 else b["file"]) for e in edits)
        ).splitlines()
        new = [l for l in removed if l.strip() and l not in base]
        note = "" if removed and not new else "  (NOT ORIGINAL LINES: %r)" % new
        missing = stable(copy)
        if missing:
            return "fails tests: %s" % missing[:4]
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, "patch.diff"), "w") as f:
            f.write(diff)
        with open(os.path.join(out, "demo.py"), "w") as f:
            f.write(b["demo"].lstrip("\n"))
        with open(os.path.join(out, "demo.sh"), "w") as f:
            f.write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        with open(os.path.join(out, "meta.json"), "w") as f:
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
            f.write("\n")
        good = sh(["bash", os.path.join(out, "demo.sh")], os.environ.get("VERIF_REPO", "/repo"))
        bad = sh(["bash", os.path.join(out, "demo.sh")], copy)
        if good.returncode:
            return "demo fails on /repo: " + good.stderr[-400:]
        if not bad.returncode:
            return "demo passes on the changed copy"
        res = "confirmed" + note
        if check:
            for prop in [b["prop"]] + list(b.get("also", [])):
                r = sh(["./check", prop], HERE, VERIF_REPO=copy)
                last = (r.stdout.strip().splitlines() or [""])[-1]
                res += " | %s exit %d %s" % (prop, r.returncode, last[:60] if r.returncode != 2 else r.stderr[-300:])
        return res
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def main():
    args = sys.argv[1:]
    check = "--check" in args
    ids = [a for a in args if not a.startswith("--")]
    if "--all" in args:
        ids = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "tools", "bugs")) if f.endswith(".py"))
    for bid in ids:
        res = plant(bid, check)
        print(bid, res, flush=True)
        if check:
            # read by tools/design.py
            path = os.path.join(HERE, "tools", "caught.json")
            known = json.load(open(path)) if os.path.exists(path) else {}
            known[bid] = sorted(set(w.split()[0] for w in res.split(" | ")[1:] if " exit 1 VIOLATION" in w))
            with open(path, "w") as f:
                json.dump(known, f, indent=1, sort_keys=True)
                f.write("\n")


main()
