prop = "C26"
file = "enhancement.py"
edits = [("            except ParseException:\n                # no match, advance loc in string\n                loc += 1\n", "            except ParseException:\n                # no match, advance loc in string\n                loc += 1 if loc > start or ignore is None else max(1, self.expr.min_length())\n")]
needs = "a target of two or more characters, that starts one character after the start, and something to ignore"
breaks = "the position after the first one is skipped"
demo = """
from mo_parsing import *

assert SkipTo(Literal("ab"), ignore=Literal("z")).parse("aab").as_list() == ["a"]
"""
