prop = "C17"
file = "enhancement.py"
edits = [("                        if min <= count:\n                            break\n                        else:\n                            raise ParseException(self, end, string, msg=\"found stopper too soon\")", "                        if min <= count:\n                            break")]
needs = "a repetition of at least one, where the stop expression comes first, and could be an item"
breaks = "the stop expression is taken for an item while there are too few"
demo = """
from mo_parsing import *
from mo_parsing.utils import alphas

e = Many(Word(alphas), stop_on=Keyword("end"), min_match=2)
assert e.matches("a b")
assert not e.matches("a end b")
"""
