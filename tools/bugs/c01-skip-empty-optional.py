prop = "C01"
file = "expressions.py"
edits = [("                if not result and index == result.end and isinstance(result.type, Many) and result.type.parser_config.min_match == 0:\n", "                if not result and isinstance(result.type, Many) and result.type.parser_config.min_match == 0:\n")]
needs = "an optional or repeated part of a sequence, that matches text but gives no tokens (it is suppressed)"
breaks = "the sequence goes on from before the text that was matched"
demo = '''
from mo_parsing import *

e = Literal("a") + Optional(Literal(",").suppress()) + Literal("b")
assert e.parse("ab").as_list() == ["a", "b"]
assert e.parse("a,b").as_list() == ["a", "b"]
'''
