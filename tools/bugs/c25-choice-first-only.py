prop = "C25"
file = "enhancement.py"
edits = [('    def check_recursion(self, seen=empty_tuple):\n        if self in seen:\n            raise RecursiveGrammarException(seen + (self,))\n        if self.expr != None:\n            self.expr.check_recursion(seen + (self,))\n\n    def expecting(self):\n        if self._in_expecting', '    def check_recursion(self, seen=empty_tuple):\n        if self in seen:\n            raise RecursiveGrammarException(seen + (self,))\n        if self.expr != None and self._checked == -1:\n            self.expr.check_recursion(seen + (self,))\n\n    def expecting(self):\n        if self._in_expecting')]
needs = "rules whose cycle is closed after one of them was used"
breaks = "a rule that was checked once is not followed again"
demo = """
from mo_parsing import *
from mo_parsing.enhancement import Forward
from mo_parsing.exceptions import RecursiveGrammarException

a, b = Forward(), Forward()
b << Literal("b")
b.parse("b")
a << (b + Literal("x"))
assert a.matches("b x")
try:
    b << (a + Literal("y"))
    b.parse("b")
except RecursiveGrammarException:
    pass
else:
    assert False
"""
