prop = "C26"
file = "enhancement.py"
edits = [("        skiptext = string[start:skip_end]\n", "        skiptext = string[start:skip_end] if fail is None else string[start:skip_end].rstrip()\n")]
needs = "a fail expression, a context that does not skip whitespace, and spaces before the target"
breaks = "the spaces at the end of the skipped text are lost"
demo = """
from mo_parsing import *
from mo_parsing.whitespaces import NO_WHITESPACE

with NO_WHITESPACE:
    e = SkipTo(Literal("x"), fail_on=Literal("z")).finalize()
assert list(e.parse("a  x")) == ["a  "], list(e.parse("a  x"))
"""
