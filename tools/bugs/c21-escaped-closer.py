prop = "C21"
file = "helpers.py"
edits = [("            excluded |= Literal(esc_char)\n", "            excluded |= Literal(esc_char) + end_quote_char\n")]
needs = "an escaped escape character just before the closing quote"
breaks = "the escape character is taken for a plain one, the quote after it for an escaped one"
demo = """
from mo_parsing import *
from mo_parsing.helpers import QuotedString

q = QuotedString("'", esc_char="!", convert_whitespace_escape=False)
assert q.parse("'a!!'").as_list() == ["a!"], q.parse("'a!!'").as_list()
"""
