prop = "C01"
file = "expressions.py"
edits = [("        if len(self.exprs) == 1 and not self.is_annotated():\n            return self.exprs[0].streamline()\n\n        # collapse any", "        if len(self.exprs) == 1:\n            return self.exprs[0].streamline()\n\n        # collapse any")]
needs = "a sequence of one element (And([x])) with a parse action, suppress or name"
breaks = "the action or name is dropped"
demo = '''
from mo_parsing import *

e = And([Literal("a") | Literal("b")]).suppress() + Literal("c")
assert e.parse("ac").as_list() == ["c"], e.parse("ac").as_list()
'''
