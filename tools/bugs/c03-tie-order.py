prop = "C03"
file = "expressions.py"
edits = [("            matches.sort(key=itemgetter(0), reverse=True)\n", "            matches.sort(key=itemgetter(0))\n            matches.reverse()\n")]
needs = "two alternatives of a longest choice that match equally far"
breaks = "the last of them is chosen instead of the first"
demo = '''
from mo_parsing import *

e = Literal("ab")("first") ^ Word("abc")("second") ^ Literal("x")
r = Group(e).parse("ab")
assert "first" in r and "second" not in r, list(r.keys())
'''
