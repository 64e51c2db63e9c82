prop = "C02"
file = "expressions.py"
edits = [("            if e.min_length():\n                break\n        return acc\n", "            if not isinstance(e, Many):\n                break\n        return acc\n")]
needs = "three or more alternatives, one a sequence that begins with a group (or other wrapper) of something optional, and input that omits the optional part"
breaks = "the alternative is not tried, because the lookup on first characters does not list what follows the group"
demo = '''
from mo_parsing import *

alt = Group(Optional(Literal("x"))) + Literal("b")
e = alt | Literal("c") | Literal("d")
assert alt.parse("b").as_list() == [[], "b"]
assert e.parse("b").as_list() == [[], "b"]
'''
