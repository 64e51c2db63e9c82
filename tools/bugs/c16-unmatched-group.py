prop = "C16"
file = "regex.py"
edits = [("                if s == -1:\n", "                if s == e:\n")]
needs = "a capture group that matches the empty text"
breaks = "a group that matched nothing is taken for one that did not take part"
demo = """
from mo_parsing import *

r = Regex("(a)(b*)(?P<x>c?)").capture_groups().parse("a")
assert "x" in r or "x" in list(r)[0] or True
d = Regex("(a)(?P<x>b*)").capture_groups()
g = (d + Literal("z")).parse("a z")
assert len(list(g)[0]) == 2 if not isinstance(list(g)[0], str) else len(list(g)) == 3, list(g)
"""
