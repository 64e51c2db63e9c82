prop = "C07"
file = "core.py"
edits = [("            t = t.tokens[0]\n            if t:\n", "            t = t.tokens[0]\n            if t and e > s:\n")]
needs = "transforming with a grammar that matches the empty text and an action that gives a replacement for it"
breaks = "empty matches are not replaced"
demo = """
from mo_parsing import *

e = (StringEnd() / (lambda: "!"))
e2 = Literal("a") | e
assert e2.transform_string("xa") == "xa!", e2.transform_string("xa")
"""
