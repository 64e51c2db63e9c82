prop = "C30"
file = "results.py"
edits = [("                elif isinstance(tok.type, Group):\n                    continue\n                elif tok.name:\n                    continue\n                else:\n                    v = tok._replace(k, v)", "                elif isinstance(tok.type, Group):\n                    continue\n                else:\n                    v = tok._replace(k, v)")]
needs = "assigning to a name that is also a part of another named part"
breaks = "the part inside of the other named part is replaced"
demo = """
from mo_parsing import *

inner = (Literal("a")("x") + Literal("b"))("out")
r = (inner + Literal("c")("x")).parse("a b c")
r["x"] = "new"
assert list(r["out"]) == ["a", "b"], list(r["out"])
"""
