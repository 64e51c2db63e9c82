prop = "C04"
file = "expressions.py"
edits = [("        match_order += [e for e in self.exprs if id(e) not in found]\n", "        match_order = [e for e in self.exprs if id(e) not in found] + match_order\n")]
needs = "a match-all with an optional element with a default, that is absent"
breaks = "the default comes before the tokens that were matched"
demo = '''
from mo_parsing import *

e = Group(Optional("a", default="A")) + Literal("z") | (Optional("a", default="A") & Literal("b") & Literal("c"))
assert e.parse("c b").as_list() == ["c", "b", "A"], e.parse("c b").as_list()
'''
