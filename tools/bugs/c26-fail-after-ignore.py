prop = "C26"
file = "enhancement.py"
edits = [("            end_result = self.expr._parse(string, before_end, do_actions)\n", "            end_result = self.expr._parse(string, skip_end, do_actions)\n")]
needs = "an included target after whitespace"
breaks = "the target is parsed where the skipped text ends, before the whitespace"
demo = """
from mo_parsing import *

assert SkipTo(Literal("b"), include=True).parse("a b").as_list() == ["a", "b"]
"""
