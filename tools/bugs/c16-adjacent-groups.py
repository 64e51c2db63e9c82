prop = "C16"
file = "regex.py"
edits = [("                if pe <= s:\n", "                if pe < s or i == 1:\n")]
needs = "a pattern with two capture groups that touch each other"
breaks = "the text of a group that starts where the last one ended is not a token"
demo = '''
from mo_parsing import *

r = Regex("(a+)(b+)").capture_groups().parse("aabb")
assert list(list(r)[0] if len(r) == 1 and not isinstance(list(r)[0], str) else r) == ["aa", "bb"], list(r)
'''
