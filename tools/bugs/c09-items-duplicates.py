prop = "C09"
file = "results.py"
edits = [("        old_v.extend(value)\n", "        old_v.extend(v for v in value if v not in old_v)\n")]
needs = "two parts with one name that matched equal tokens, read with items() or values()"
breaks = "the second is left out of items()"
demo = """
from mo_parsing import *
from mo_parsing.utils import nums

r = OneOrMore(Word(nums)("n")).parse("1 2 1")
assert len(list(dict(r.items())["n"])) == 3
"""
