prop = "C19"
file = "tokens.py"
edits = [('                    Char(init_chars, exclude=exclude)\n                    + Char(body_chars, exclude=exclude)[min - 1 : max - 1]', '                    Char(init_chars, exclude=exclude)\n                    + Char(body_chars, exclude=exclude)[min - 1 : max - min + 1]')]
needs = "a Word with a body different from its first character, a minimum of 3 or more, and a maximum"
breaks = "the maximum is computed from the minimum"
demo = """
from mo_parsing import *

e = Word("a", "b", min=3, max=5)
assert e.parse("abbbbbb").as_list() == ["abbbb"], e.parse("abbbbbb").as_list()
"""
