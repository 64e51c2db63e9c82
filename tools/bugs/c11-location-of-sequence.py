prop = "C11"
file = "core.py"
edits = [("                next_result = fn(result, result.start, string)", "                next_result = fn(result, start, string)")]
needs = "an action on a part whose match starts after the place where it was tried (whitespace of its own)"
breaks = "the location given to the action is before the match"
demo = '''
from mo_parsing import *
from mo_parsing.whitespaces import Whitespace, NO_WHITESPACE

seen = []
many = OneOrMore(Literal("b")) / (lambda t, l, s: seen.append(l))
with NO_WHITESPACE:
    e = Literal("a") + many
e.parse("a  b b")
assert seen == [3], seen
'''
