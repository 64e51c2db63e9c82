prop = "C15"
file = "exceptions.py"
edits = [("                line_str[:line_column],\n                marker_string,\n                line_str[line_column:],", "                line_str[:line_column].lstrip(),\n                marker_string,\n                line_str[line_column:].lstrip(),")]
needs = "a failure position followed by whitespace"
breaks = "the marked line loses the whitespace at the failure"
demo = """
from mo_parsing import *
from mo_parsing.whitespaces import NO_WHITESPACE
from mo_parsing.exceptions import ParseException

with NO_WHITESPACE:
    p = (Literal("a") + Literal("b")).finalize()
try:
    p.parse("a x")
except ParseException as c:
    assert c.mark_inputline("!") == "a! x", c.mark_inputline("!")
else:
    assert False
"""
