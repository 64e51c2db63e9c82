prop = "C30"
file = "results.py"
edits = [("                    v = NO_RESULTS  # ERASE ALL OTHERS\n", "                    if v is NO_RESULTS or i + 1 < len(self.tokens):\n                        v = NO_RESULTS  # ERASE ALL OTHERS\n")]
needs = "assigning to a name whose last part is the last of the result"
breaks = "the value is added once more"
demo = """
from mo_parsing import *

r = (Literal("a") + Literal("c")("x")).parse("a c")
r["x"] = "new"
assert r["x"] == "new" and list(r) == ["a", "new"]
"""
