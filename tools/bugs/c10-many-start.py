prop = "C10"
file = "enhancement.py"
edits = [("return ParseResults(self, acc[0].start, acc[-1].end, acc, failures)", "return ParseResults(self, start, acc[-1].end, acc, failures)")]
needs = "a repetition with whitespace of its own in a place where less whitespace is skipped, with whitespace before its first item"
breaks = "the group starts at the whitespace before its first item"
demo = '''
from mo_parsing import *
from mo_parsing.whitespaces import Whitespace, NO_WHITESPACE

many = Group(OneOrMore(Literal("b")))
with NO_WHITESPACE:
    e = Literal("a") + many
t = list(e.parse("a  b b"))[1]
assert (t.start, t.end) == (3, 6), (t.start, t.end)
'''
