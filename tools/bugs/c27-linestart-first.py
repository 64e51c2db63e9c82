prop = "C27"
file = "tokens.py"
edits = [("        if col(start, string) == 1:\n", "        if col(start, string) == 1 and (start < len(string) or not start):\n")]
needs = "the empty last line of an input that ends with a newline"
breaks = "LineStart does not match there"
demo = """
from mo_parsing import *
from mo_parsing.whitespaces import NO_WHITESPACE

with NO_WHITESPACE:
    e = (Literal("a\\n") + LineStart()).finalize()
e.parse("a\\n")
"""
