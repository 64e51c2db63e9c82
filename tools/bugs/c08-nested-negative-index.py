prop = "C08"
file = "results.py"
edits = [("item = len(self) + item", "item = len(self.tokens) + item")]
needs = "a negative index into a result in which some part has several items, or none"
breaks = "counts parts, not items"
demo = '''
from mo_parsing import *

r = (Literal("a") + Optional(Literal("x") + Literal("y")) + Literal("b")).parse("a x y b")
assert list(r) == ["a", "x", "y", "b"]
assert r[-1] == "b" and r[-4] == "a", [r[-1], r[-4]]
'''
