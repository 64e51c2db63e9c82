prop = "C10"
file = "infix.py"
edits = [("""                                flat_tokens[i][0].start,
                                flat_tokens[i + 2][0].end,
                                (flat_tokens[i][0], flat_tokens[i + 2][0]),
""", """                                tokens.start,
                                flat_tokens[i + 2][0].end,
                                (flat_tokens[i][0], flat_tokens[i + 2][0]),
""")]
needs = "a binary operation with a suppressed operator that is not the first operation of its expression"
breaks = "the span of the operation begins where the whole expression begins"
demo = '''
from mo_parsing import *
from mo_parsing.infix import infix_notation, LEFT_ASSOC
from mo_parsing.utils import nums

e = Group(infix_notation(Word(nums), [(Suppress("*"), 2, LEFT_ASSOC), ("+", 2, LEFT_ASSOC)]))
whole = list(e.parse("1 + 2 * 3"))[0]
inner = [x for x in whole if not isinstance(x, str)][0]
assert inner.as_list() == [["2", "3"]], inner.as_list()
assert (inner.start, inner.end) == (4, 9), (inner.start, inner.end)
'''
