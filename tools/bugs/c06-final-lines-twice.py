prop = "C06"
file = "tokens.py"
edits = [('regex_compile("(?:\\\\r?\\\\n)*$")', 'regex_compile("(?:\\\\r?\\\\n)?$")')]
needs = "no whitespace is skipped at the end, and the input ends with three newlines"
breaks = "only one final line end is allowed"
demo = """
from mo_parsing import *
from mo_parsing.whitespaces import Whitespace

with Whitespace(" "):
    p = (Literal("a") + Literal("b")).finalize()
p.parse("a b\\n\\n\\n", parse_all=True)
"""
