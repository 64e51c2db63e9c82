prop = "C18"
file = "infix.py"
edits = [("            op_index = 0\n\n        if len", "            op_index = op_index and op_index - 1\n\n        if len")]
needs = "a low precedence prefix operator, as operand of a much tighter binary operator"
breaks = "tighter levels are not tried again from the first"
demo = '''
from mo_parsing import *
from mo_parsing.utils import alphas, nums, alphanums
from mo_parsing.infix import infix_notation, RIGHT_ASSOC, LEFT_ASSOC

e = infix_notation(Word(nums), [("!", 1, LEFT_ASSOC), ("*", 2, LEFT_ASSOC), ("+", 2, LEFT_ASSOC), ("-", 1, RIGHT_ASSOC)])
def flat(r):
    return [flat(x) if not isinstance(x, str) else x for x in r]
x = flat(e.parse("2 * - 3 * 4 + 1", parse_all=True))
print(x)
y = flat(e.parse("- 3 !", parse_all=True))
'''
