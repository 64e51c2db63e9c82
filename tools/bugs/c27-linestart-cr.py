prop = "C27"
file = "tokens.py"
edits = [('            self.set_config(regex=regex_compile("\\\\r?(\\\\n|$)"))', '            self.set_config(regex=regex_compile("\\\\r?(\\\\n|$)|\\\\r"))')]
needs = "a carriage return that is not followed by a newline"
breaks = "a lone carriage return is taken for a line end"
demo = """
from mo_parsing import *
from mo_parsing.whitespaces import NO_WHITESPACE

with NO_WHITESPACE:
    e = (Literal("a") + LineEnd() + Literal("b")).finalize()
try:
    e.parse("a\\rb")
except Exception:
    pass
else:
    assert False
"""
