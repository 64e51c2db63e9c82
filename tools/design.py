"""Assemble DESIGN.md (run by hand: python3 tools/design.py)."""
import ast
import glob
import json
import os
import re
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(*path):
    with open(os.path.join(HERE, *path), encoding="utf-8") as f:
        return f.read()


def wrap(text, indent=""):
    return textwrap.fill(" ".join(text.split()), 118, initial_indent=indent, subsequent_indent=indent,
                         break_long_words=False, break_on_hyphens=False)


def facts(pid):
    tree = ast.parse(read("pbt", "props", pid.lower() + ".py"))
    out = {"RULE": "", "ASSUMPTIONS": [], "SUBS": []}
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("RULE", "ASSUMPTIONS"):
            out[node.targets[0].id] = ast.literal_eval(node.value)
    for node in ast.walk(tree):
        if isinstance(node, ast.Call) and getattr(node.func, "id", "") == "Sub":
            a = node.args
            try:
                out["SUBS"].append((ast.literal_eval(a[0]), ast.literal_eval(a[3]), ast.literal_eval(a[4])))
            except ValueError:
                out["SUBS"].append((ast.unparse(a[0]), ast.unparse(a[3]), ast.unparse(a[4])))
    return out


ORACLE = json.loads(read("tools", "oracles.json"))
props = [json.loads(l) for l in read("properties.jsonl").splitlines()]
checks = {c["property"]: c for c in json.loads(read("MANIFEST.json"))["checks"]}
na = json.loads(read("MANIFEST.json"))["not_applicable"]
caught = json.loads(read("tools", "caught.json"))
known = json.loads(read("known_findings.json"))
seeded = {}
for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    seeded[os.path.basename(os.path.dirname(m))] = json.load(open(m))

out = [read("tools", "design_head.md").rstrip(), "", "## The properties, and how each is decided", ""]
for p in props:
    i = p["id"]
    f = facts(i)
    c = checks.get(i)
    out += ["### %s. %s" % (i, p["title"]), ""]
    if c is None:
        continue
    out += [wrap("**Specified.** " + p["statement"]), ""]
    out += [wrap("**Domain.** " + p["quantifier"]["text"] + "."), ""]
    out += [wrap("**Generated.** " + f["RULE"]), ""]
    out += [wrap("**Oracle.** " + ORACLE[i]), ""]
    if f["ASSUMPTIONS"]:
        out += [wrap("**Assumed.** " + "; ".join(f["ASSUMPTIONS"]) + ". " + c["level_note"]), ""]
    out += [wrap("**Why tests cannot settle it.** " + p["why_tests_cant"]), ""]
    cost = ""
    ev = os.path.join(HERE, "evidence", i + ".json")
    if os.path.exists(ev):
        e = json.load(open(ev))
        if e["tier"] == "quick":
            cost = " (about %d s on 8 cores)" % max(1, round(e["wall_s"] / 5) * 5 or round(e["wall_s"]))
    subs = "; ".join("%s %s / %s" % s for s in f["SUBS"])
    out += [wrap("**Cases, quick / thorough.** " + subs + cost + "."), ""]
    mine = ["`%s`" % b for b, m in seeded.items() if m["property"] == i]
    if mine:
        out += [wrap("**Planted bugs.** " + ", ".join(mine) + "."), ""]
if na:
    out += ["## Not applicable", ""] + ["* %s: %s" % (x["property"], x["reason"]) for x in na] + [""]
out += ["## Planted bugs, and the checks that catch them", "",
        wrap("Each was written from a property's text and the code, confirmed in a scratch copy (stable tests pass, "
             "demo passes on the tree and fails on the copy), and kept whether it was caught or not. The column gives "
             "the checks (quick tier, seed 1) that report it."), "",
        "| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for b, m in seeded.items():
    out.append("| %s | %s | %s | %s | %s |" % (
        b, m["property"], m["what_it_breaks"], m["needs"], ", ".join(caught.get(b, [])) or ("not caught" if b in caught else "?")))
out += ["", "## Genuine defects found, and repaired in /repo", ""]
for line in known["fixed"]:
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)$", line, re.S)
    out.append(wrap("* %s `%s` %s" % m.groups()))
out += ["", "## Known findings (not repaired)", ""]
out += [wrap("* %s: %s" % (e["property"], e["what"])) for e in known["findings"]] or ["None."]
out += ["", read("tools", "design_tail.md").rstrip(), ""]
with open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8") as f:
    f.write("\n".join(out))
print(len("\n".join(out)), "characters")
