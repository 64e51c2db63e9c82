prop = "C18"
file = "infix.py"
edits = [("                            s0, s1 = is_suppressed\n                            if not s1:\n", "                            s0, s1 = is_suppressed\n                            if not (s0 and s1):\n")]
needs = "a ternary operator of which only the first or only the second symbol is suppressed"
breaks = "the tree of such an operation has a symbol too many"
demo = """
from mo_parsing import *
from mo_parsing.utils import nums
from mo_parsing.infix import infix_notation, RIGHT_ASSOC

e = infix_notation(Word(nums), [(("?", Suppress(":")), 3, RIGHT_ASSOC)])
x = e.parse("1 ? 2 : 3", parse_all=True).as_list()
while len(x) == 1:
    x = x[0]
assert x == ["1", "?", "2", "3"], x
"""
