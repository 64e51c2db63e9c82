prop = "C09"
file = "results.py"
edits = [("                elif tok.name:\n                    continue\n                elif isinstance(tok.type, Group):\n                    continue\n                yield from", "                elif tok.name and tok.tokens:\n                    continue\n                elif isinstance(tok.type, Group) and len(self.tokens) > 1:\n                    continue\n                yield from")]
needs = "a result whose only part is an unnamed group that has names"
breaks = "names inside a group are visible outside of it, when nothing else is there"
demo = """
from mo_parsing import *

e = Group(Group(Literal("a")("x")) )
r = (e + Literal("b")).parse("a b")
assert "x" not in r
assert "x" not in list(r)[0]
"""
