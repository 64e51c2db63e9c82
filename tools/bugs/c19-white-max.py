prop = "C19"
file = "tokens.py"
edits = [('        if end - start < self.parser_config.min_len:\n            raise ParseException(self, end, string)', '        if min(end - start, self.parser_config.max_len - 1) < self.parser_config.min_len - 1:\n            raise ParseException(self, end, string)')]
needs = "White with a minimum (and a larger maximum), with one character too few"
breaks = "one too few is enough"
demo = """
from mo_parsing import *
from mo_parsing.whitespaces import NO_WHITESPACE

with NO_WHITESPACE:
    e = (Literal("a") + White(" ", min=3) + Literal("b")).finalize()
try:
    e.parse("a  b")
except Exception:
    pass
else:
    assert False
"""
