prop = "C11"
file = "core.py"
edits = [("            for fn in self.parse_action:\n                next_result", "            for fn in self.parse_action if do_actions else self.parse_action[:1]:\n                next_result")]
needs = "two conditions with callDuringTry on one expression, inside a place that is only tried (the target of a SkipTo)"
breaks = "only the first condition is checked when trying"
demo = """
from mo_parsing import *
from mo_parsing.utils import nums

n = Word(nums).add_condition(lambda t: True, callDuringTry=True).add_condition(lambda t: t[0] != "1", callDuringTry=True)
e = SkipTo(n) + n
assert e.parse("x 1 y 2").as_list() == ["x 1 y", "2"], e.parse("x 1 y 2").as_list()
"""
