prop = "C04"
file = "expressions.py"
edits = [("                        del count[i]\n", "")]
needs = "a match-all in which an element reaches its maximum before one listed after it, that has a minimum, is complete"
breaks = "counts are attributed to the wrong elements, so missing or extra occurrences are not seen"
demo = '''
from mo_parsing import *

e = Literal("a") & Literal("b") & Many(Literal("c"), min_match=2, max_match=3)
assert e.parse("a b c c", parse_all=True).as_list() == ["a", "b", "c", "c"]
assert e.parse("c a c b", parse_all=True).as_list() == ["c", "a", "c", "b"]
try:
    e.parse("a b c", parse_all=True)
except Exception:
    pass
else:
    raise AssertionError("one c is not enough")
'''
